"""Where the code under test is, and where this run may write."""
import os
import sys

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_OUT", VERIF)  # where evidence and replays go
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
FIXTURES = os.path.join(REPO, "tests", "fixtures", "pddl_files")
sys.setrecursionlimit(max(sys.getrecursionlimit(), 1000))
