#!/opt/venv/bin/python
"""Plant bugs: turn seed definitions into seeded/<id>/, verify each in scratch copies, and see which checks notice.

usage: plant.py DEFS.py [--only id,id] [--no-checks] [-j 8]     make, verify and judge the definitions of a file
       plant.py --matrix [--only ..] [--checks C01,..]          judge the seeded bugs by their own and by other checks
A definitions file has SEEDS = [dict(id=, prop=, edits=[(file, old, new)], demo=python text, needs=, breaks=)].
"""
import argparse
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()
PY = "/opt/venv/bin/python"
DEMO = '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec timeout 200 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
PRE = '''import os, sys
import pddl
assert os.path.realpath(pddl.__file__).startswith(os.path.realpath(os.getcwd())), pddl.__file__
'''


def sh(cmd, cwd=None, env=None, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)


def original_lines(repo, rel):
    out = sh(["git", "blame", "-s", "-l", "--abbrev=40", rel], cwd=repo).stdout.splitlines()
    return [ln.lstrip("^")[:30] == BASE[:30] or ln.lstrip("^").startswith(BASE[:30]) for ln in out]


def clone(d):
    repo = os.path.join(d, "repo")
    sh(["git", "clone", "-q", "/repo", repo])
    return repo


def tests(repo):
    env = dict(os.environ, PYTHONPATH=repo + ":/opt/vp/plugins", PYTHONHASHSEED="0")
    p = sh([PY, "-m", "pytest", "-q", "--doctest-modules", "pddl", "tests", "-p", "vp_path_ids", "-p", "no:cacheprovider", "-p", "no:randomly", "-n", "3", "--timeout=60", "-x"], cwd=repo, env=env, timeout=900)
    tail = (p.stdout or p.stderr).strip().splitlines()[-12:]
    return p.returncode == 0 or (" failed" not in tail[-1] and " passed" in tail[-1]), "\n".join(tail)


def demo(folder, repo):
    tmp = tempfile.mkdtemp(prefix="demo-")
    try:
        for f in os.listdir(folder):
            if f not in ("patch.diff", "meta.json"):
                shutil.copy2(os.path.join(folder, f), tmp)
        env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        try:
            p = sh(["bash", os.path.join(tmp, "demo.sh")], cwd=repo, env=env, timeout=290)
        except subprocess.TimeoutExpired:
            return 99, "timeout"
        return p.returncode, (p.stdout + p.stderr)[-600:]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_check(c, repo, d, scale="1", nproc="4", seed="1"):
    env = dict(os.environ, VERIF_REPO=repo, VERIF_SCALE=scale, VERIF_NPROC=nproc, VERIF_OUT=d, VERIF_SEED=seed, VERIF_TIER="quick")
    env.pop("PYTHONHASHSEED", None)
    try:
        p = sh([os.path.join(V, "check.py"), c], env=env, timeout=900)
    except subprocess.TimeoutExpired:
        return "TIMEOUT", ""
    lines = p.stdout.splitlines()
    hit = p.returncode == 1 and any(ln.startswith(f"VIOLATION property={c} ") for ln in lines)
    return ("caught" if hit else "missed" if p.returncode == 0 else f"rc{p.returncode}"), " | ".join(lines[1:3])[:260] + p.stderr[-200:] * (p.returncode not in (0, 1))


def make(s, checks=True):
    d = tempfile.mkdtemp(prefix="plant-")
    try:
        repo = clone(d)
        for rel, old, new in s["edits"]:
            p = os.path.join(repo, rel)
            src = open(p).read()
            if src.count(old) != 1:
                return s["id"], f"BAD edit: {src.count(old)} matches in {rel}", ""
            orig = original_lines(repo, rel) if "_done" not in s else None
            a = src[: src.index(old)].count("\n")
            ol, nl = old.split("\n"), new.split("\n")
            # the lines that go away
            import difflib
            gone = [a + i for tag, i1, i2, _, _ in difflib.SequenceMatcher(None, ol, nl, autojunk=False).get_opcodes() if tag in ("replace", "delete") for i in range(i1, i2)]
            if any(not orig[i] for i in gone if i < len(orig)):
                return s["id"], f"BAD: touches lines that are not original in {rel}: {[i + 1 for i in gone if not orig[i]]}", ""
            s.setdefault("_gone", 0)
            s["_gone"] += len(gone)
            open(p, "w").write(src.replace(old, new))
            if rel != s["edits"][-1][0]:
                pass
        if not s["_gone"]:
            return s["id"], "BAD: changes no line of the original", ""
        diff = sh(["git", "diff"], cwd=repo).stdout
        f = os.path.join(V, "seeded", s["id"])
        os.makedirs(f, exist_ok=True)
        open(os.path.join(f, "patch.diff"), "w").write(diff)
        open(os.path.join(f, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(f, "demo.sh"), 0o755)
        open(os.path.join(f, "demo.py"), "w").write(PRE + s["demo"].lstrip("\n"))
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(f, "meta.json"), "w"), indent=1)
        rc, out = demo(f, repo)
        if rc == 0:
            return drop(s, "BAD: the demo passes with the patch")
        d2 = os.path.join(d, "clean")
        os.makedirs(d2)
        clean = clone(d2)
        rc, out2 = demo(f, clean)
        if rc:
            return drop(s, "BAD: the demo fails on the clean tree: " + out2)
        ok, tail = tests(repo)
        if not ok:
            return drop(s, "BAD: the tests fail: " + tail)
        if not checks:
            return s["id"], "ok", out[-150:]
        r, w = run_check(s["prop"], repo, d)
        return s["id"], r, w
    finally:
        shutil.rmtree(d, ignore_errors=True)


def drop(s, why):
    shutil.rmtree(os.path.join(V, "seeded", s["id"]), ignore_errors=True)
    return s["id"], why, ""


def judge(job):
    i, checks, scale = job
    d = tempfile.mkdtemp(prefix="plant-")
    try:
        repo = clone(d)
        p = sh(["git", "apply", os.path.join(V, "seeded", i, "patch.diff")], cwd=repo)
        if p.returncode:
            return i, {"-": "does not apply"}
        return i, {c: run_check(c, repo, d, scale=scale, nproc="2")[0] for c in checks}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("defs", nargs="?")
    ap.add_argument("--only", default="")
    ap.add_argument("--no-checks", action="store_true")
    ap.add_argument("--matrix", action="store_true")
    ap.add_argument("--checks", default="")
    ap.add_argument("--scale", default="1")
    ap.add_argument("--out", default="")
    ap.add_argument("-j", type=int, default=3)
    a = ap.parse_args()
    only = set(filter(None, a.only.split(",")))
    if a.matrix:
        ids = sorted(os.listdir(os.path.join(V, "seeded")))
        ids = [i for i in ids if not only or i in only]
        jobs = []
        for i in ids:
            own = json.load(open(os.path.join(V, "seeded", i, "meta.json")))["property"]
            cs = a.checks.split(",") if a.checks else [own]
            jobs.append((i, cs, a.scale))
        with cf.ProcessPoolExecutor(a.j) as ex:
            for f in cf.as_completed([ex.submit(judge, j) for j in jobs]):
                i, r = f.result()
                print(i, json.dumps(r), flush=True)
                if a.out:
                    open(a.out, "a").write(json.dumps([i, r]) + "\n")
        return
    ns = {}
    exec(compile(open(a.defs).read(), a.defs, "exec"), ns)
    seeds = [s for s in ns["SEEDS"] if not only or s["id"] in only]
    with cf.ProcessPoolExecutor(a.j) as ex:
        for f in cf.as_completed([ex.submit(make, s, not a.no_checks) for s in seeds]):
            i, r, w = f.result()
            print(f"{i}: {r[:300]} {w[:110]}".replace("\n", " "), flush=True)


if __name__ == "__main__":
    main()
