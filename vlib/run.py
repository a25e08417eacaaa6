"""Runs the cases of a check over all cores, gathers what its monitors saw, reports.

A check is a module of /verif/checks with
    ID, TECH, RULE, LEVEL_NOTE      strings
    cases(tier) -> int              how many cases
    setup() -> ctx-private state    once per worker process
    case(i, st, ctx)                runs case number i; raises Violation, or returns
and optionally TIMEOUT (s per case), REQUIRE (counters that must not stay at zero), finish(agg).
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

from . import env

NPROC = int(os.environ.get("VERIF_NPROC", "0")) or max(1, min(8, os.cpu_count() or 1))
SCALE = float(os.environ.get("VERIF_SCALE", "1"))  # for mutation runs (tools/mutants.py)
KNOWN = os.path.join(env.VERIF, "known_findings.txt")


class Violation(Exception):
    def __init__(self, msg, key=None, **data):
        super().__init__(msg)
        self.msg, self.key, self.data = msg, key, data


class CaseTimeout(BaseException):
    pass


class Inconclusive(Exception):
    pass


class Ctx:
    """What the monitors of one worker saw."""

    def __init__(self, check, seed):
        self.check, self.seed = check, seed
        self.counters = {}
        self.sigs = set()
        self.samples = []
        self.evals = 0
        self.nontrivial = 0

    def rng(self, *key):
        return random.Random("/".join(map(str, (self.seed, self.check, *key))))

    def count(self, name, k=1):
        self.counters[name] = self.counters.get(name, 0) + k

    def peak(self, name, v):
        name = "max_" + name
        self.counters[name] = max(self.counters.get(name, 0), v)

    def seen(self, *what, nontrivial=True):
        """One evaluation, of this case."""
        self.evals += 1
        if nontrivial:
            self.sigs.add(hashlib.blake2b(repr(what).encode("utf-8", "surrogatepass"), digest_size=8).digest())

    def sample(self, text):
        if len(self.samples) < 2:
            self.samples.append(str(text)[:1500])


class Coverage:
    """Which lines and functions of the library ran (sys.monitoring: near-zero cost)."""

    TOOL = 3

    def __init__(self):
        self.lines = set()
        self.prefix = os.path.join(env.REPO, "pddl") + os.sep

    def start(self):
        m = sys.monitoring
        try:
            m.use_tool_id(self.TOOL, "verif")
        except ValueError:
            return
        m.register_callback(self.TOOL, m.events.LINE, self._line)
        m.set_events(self.TOOL, m.events.LINE)

    def _line(self, code, line):
        if code.co_filename.startswith(self.prefix):
            self.lines.add((code.co_filename[len(self.prefix):], line))
        return sys.monitoring.DISABLE


def inner_file(e):
    tb = e.__traceback__
    out = ""
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(os.path.join(env.REPO, "pddl") + os.sep):
            out = f
        tb = tb.tb_next
    return out


def _alarm(*_):
    raise CaseTimeout()


def worker(modname, seed, tier, idx, nproc, cap, only, q):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    mod = importlib.import_module(modname)
    ctx = Ctx(mod.ID, seed)
    cov = Coverage()
    viol = []
    err = None
    ran = 0
    total = max(1, int(mod.cases(tier) * SCALE))
    t0 = time.time()
    timeout = getattr(mod, "TIMEOUT", 30)
    try:
        cov.start()
        signal.signal(signal.SIGALRM, _alarm)
        st = mod.setup()
        todo = [only] if only is not None else range(idx, total, nproc)
        for i in todo:
            if time.time() - t0 > cap:
                ctx.count("stopped_at_time_cap")
                break
            try:
                signal.setitimer(signal.ITIMER_REAL, timeout)
                try:
                    mod.case(i, st, ctx)
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                ran += 1
            except Violation as v:
                viol.append({"case": i, "message": v.msg, "key": v.key, "data": v.data})
            except CaseTimeout:
                viol.append({"case": i, "message": f"the code under test did not answer within {timeout} s", "key": None, "data": {}})
            except Inconclusive:
                raise
            except Exception as e:
                # the library raised where the property says it must answer
                viol.append({
                    "case": i, "message": f"unexpected {type(e).__name__}: {str(e)[:500]}", "key": None,
                    "data": {"traceback": traceback.format_exc()[-3000:]},
                })
            if len(viol) >= 3:
                break
        if hasattr(mod, "teardown"):
            mod.teardown(st, ctx)
    except BaseException as e:
        if ran == 0 and inner_file(e).startswith(cov.prefix):
            # the library does not even start
            viol.append({
                "case": -1, "message": f"unexpected {type(e).__name__} before the first case: {str(e)[:500]}", "key": None,
                "data": {"traceback": traceback.format_exc()[-3000:]},
            })
        else:
            err = traceback.format_exc()
    q.put({
        "counters": ctx.counters, "sigs": ctx.sigs, "samples": ctx.samples, "evals": ctx.evals, "viol": viol,
        "err": err, "ran": ran, "lines": cov.lines,
    })


def known_keys(prop):
    out = {}
    try:
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: property=%s key=" % prop):
                    rest = line.split("key=", 1)[1]
                    key, _, what = rest.partition(" ")
                    out[key] = what
    except FileNotFoundError:
        pass
    return out


def main(modname, replay=None):
    mod = importlib.import_module(modname)
    tier = env.TIER if env.TIER in ("quick", "thorough") else "quick"
    seed = env.SEED
    only = None
    if replay:
        with open(replay) as f:
            r = json.load(f)
        seed, tier, only = r["seed"], r["tier"], r["case"]
        if only < 0:
            only = None  # not the doing of one case: run them all
    t0 = time.time()
    nproc = 1 if only is not None else getattr(mod, "NPROC", NPROC)
    cap = 400 if tier == "quick" else 3000
    mpc = mp.get_context("fork")
    q = mpc.Queue()
    procs = [
        mpc.Process(target=worker, args=(modname, seed, tier, k, nproc, cap, only, q)) for k in range(nproc)
    ]
    for p in procs:
        p.start()
    outs = []
    deadline = t0 + cap + 200
    while len(outs) < len(procs):
        try:
            outs.append(q.get(timeout=1))
        except Exception:
            dead = [p for p in procs if not p.is_alive() and p.exitcode not in (0, None)]
            if len(dead) + len(outs) >= len(procs) and q.empty():
                break
            if time.time() > deadline:
                break
    lost = len(procs) - len(outs)
    for p in procs:
        p.join(timeout=2)
        if p.is_alive():
            p.kill()
    counters, sigs, samples, viol, errs, lines = {}, set(), [], [], [], set()
    evals = ran = 0
    for o in outs:
        for k, v in o["counters"].items():
            counters[k] = max(counters.get(k, 0), v) if k.startswith("max_") else counters.get(k, 0) + v
        sigs |= o["sigs"]
        samples += o["samples"]
        viol += o["viol"]
        lines |= o["lines"]
        evals += o["evals"]
        ran += o["ran"]
        if o["err"]:
            errs.append(o["err"])
    if lost:
        # a worker died (not by an exception): the code under test took the interpreter down, or hung it
        viol.append({"case": -1, "message": f"{lost} worker processes died or hung", "key": None, "data": {}})
    viol.sort(key=lambda v: v["case"])
    known = known_keys(mod.ID)
    fresh, printed = [], set()
    for v in viol:
        if v["key"] is not None and v["key"] in known:
            if v["key"] not in printed:
                printed.add(v["key"])
                print(f"KNOWN-FINDING: property={mod.ID} {v['key']} {known[v['key']]}")
        else:
            fresh.append(v)
    if hasattr(mod, "finish"):
        try:
            mod.finish(counters)
        except Violation as v:
            fresh.append({"case": -1, "message": v.msg, "key": v.key, "data": v.data})
    by_file = {}
    for f, _ in lines:
        by_file[f] = by_file.get(f, 0) + 1
    ev = {
        "property": mod.ID, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples[:4] or ["(none)"],
            "cases_run": ran,
            "monitor_counters": dict(sorted(counters.items())),
            "library_lines_executed": len(lines),
            "library_lines_by_file": dict(sorted(by_file.items())),
            "worker_processes": nproc,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(env.OUT, "evidence"), exist_ok=True)
    if only is None:
        with open(os.path.join(env.OUT, "evidence", mod.ID + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if fresh:
        os.makedirs(os.path.join(env.OUT, "replays"), exist_ok=True)
        for n, v in enumerate(fresh[:3]):
            path = os.path.join(env.OUT, "replays", f"{mod.ID}-{n}.json")
            if only is None:
                with open(path, "w") as f:
                    json.dump({
                        "property": mod.ID, "seed": seed, "tier": tier, "case": v["case"], "message": v["message"], "data": v["data"],
                    }, f, indent=1, default=repr)
            else:
                path = replay
            print(f"VIOLATION property={mod.ID} replay={path}")
            print("  case %s: %s" % (v["case"], v["message"][:1500]))
            for k, x in v["data"].items():
                print(f"  {k}: {str(x)[:1500]}")
        return 1
    if errs:
        print("CHECK ERROR", mod.ID, file=sys.stderr)
        print(errs[0], file=sys.stderr)
        return 2
    missing = [k for k in getattr(mod, "REQUIRE", []) if not counters.get(k)]
    if only is None and (missing or not evals):
        print(f"INCONCLUSIVE {mod.ID}: the monitors never observed {missing or 'anything'}", file=sys.stderr)
        return 3
    print(
        f"OK property={mod.ID} tier={tier} seed={seed} evaluations={evals} distinct={len(sigs)} "
        f"cases={ran} lines={len(lines)} wall={ev['wall_s']}s"
    )
    return 0
