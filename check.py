#!/opt/venv/bin/python
"""check.py ID [--replay FILE]: decide one property on /repo's working tree (see DESIGN.md)."""
import os
import sys

if os.environ.get("PYTHONHASHSEED") is None:
    # reproducible runs: str hashes follow the seed
    os.environ["PYTHONHASHSEED"] = str(int(os.environ.get("VERIF_SEED", "1")) % 4294967295)
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable, *sys.argv])
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vlib import run  # noqa: E402

if __name__ == "__main__":
    prop = sys.argv[1]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    sys.exit(run.main("checks." + prop.lower(), replay))
