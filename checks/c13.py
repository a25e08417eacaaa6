"""C13: concurrent use gives what sequential use gives."""
import copy
import pickle
import os
import shutil
import sys
import tempfile
import threading
import time

from checks import c01
from vlib.h import KINDS, OBJ, PARSER, SURF, TOKENS, canon, env, gen, lang, mutate, parse, reader, same, Violation

ID = "C13"
TECH = "schedule-perturbing monitor: threads with forced switches inside the library, every result compared with the sequential one"
RULE = (
    "one evaluation = one operation run in a thread among others and compared with its sequential result; "
    "distinct = distinct sequences of thread switches observed inside the library"
)
REQUIRE = ["switches", "parses", "shared_object_operations", "file_parses", "parser_constructions", "first_uses_together"]
N = {"quick": 200, "thorough": 15000}
TIMEOUT = 120
TOOL = 4


class Yields:
    """Gives up the processor at random lines of the library, and records who runs."""

    def __init__(self):
        self.prefix = os.path.join(env.REPO, "pddl") + os.sep
        self.rate = 0.0
        self.state = 1
        self.trace = []
        self.on = False
        m = sys.monitoring
        m.use_tool_id(TOOL, "yields")
        m.register_callback(TOOL, m.events.LINE, self.line)

    def start(self, seed, rate):
        self.state, self.rate, self.trace, self.on = seed | 1, rate, [], True
        sys.monitoring.set_events(TOOL, sys.monitoring.events.LINE)
        sys.monitoring.restart_events()

    def stop(self):
        self.on = False
        sys.monitoring.set_events(TOOL, 0)

    def line(self, code, line):
        if not code.co_filename.startswith(self.prefix):
            return sys.monitoring.DISABLE
        if not self.on:
            return None
        self.state = (self.state * 6364136223846793005 + 1442695040888963407) & (2 ** 64 - 1)
        me = threading.get_ident()
        if len(self.trace) < 20000 and (not self.trace or self.trace[-1][0] != me):
            self.trace.append((me, code.co_firstlineno, line))
        x = (self.state >> 33) / 2 ** 31
        if x < self.rate:
            time.sleep(0)
        elif x > 1 - self.rate / 60:
            time.sleep(0.0003)


class St:
    pass


def cases(tier):
    return N[tier]


def setup():
    st = St()
    st.yields = Yields()
    st.seq = {k: PARSER[k]() for k in KINDS}
    st.dir = tempfile.mkdtemp(prefix="verif-c13-")
    return st


def teardown(st, ctx):
    shutil.rmtree(st.dir, ignore_errors=True)


def jobs(r, st, shared, n, ctx):
    """[(what, expected, function)]: function may run in any thread."""
    import pddl

    out = []
    own = {}
    for _ in range(n):
        x = r.random()
        if x < 0.5:
            kind, text, want = r.choice(shared["texts"])
            fresh = r.random() < 0.12

            def job(kind=kind, text=text, fresh=fresh):
                if fresh or kind not in own:
                    own[kind] = PARSER[kind]()
                    ctx.count("parser_constructions")
                got, y = parse(own[kind], text)
                return OBJ[kind](y) if got == "ok" else type(y).__name__

            ctx.count("parses")
            out.append((f"parse {kind} {text[:1500]}", want, job))
        elif x < 0.58:
            kind, path, want = r.choice(shared["files"])
            f = {"domain": pddl.parse_domain, "problem": pddl.parse_problem, "plan": pddl.parse_plan}[kind]
            ctx.count("file_parses")
            out.append((f"parse file {kind}", want, lambda f=f, path=path, kind=kind: OBJ[kind](f(path))))
        else:
            name, f, want = r.choice(shared["ops"])
            ctx.count("shared_object_operations")
            out.append((name, want, f))
    return out


def op_list(st, dom, prob, plan, r):
    """Operations on objects that all the threads share; the expected results are computed on a copy."""
    ops = []

    def add(name, f):
        ops.append((name, f))

    def mk(dom, prob, plan):
        fs = []
        fs.append(("print domain", lambda: str(dom)))
        fs.append(("print problem", lambda: str(prob)))
        fs.append(("print plan", lambda: str(plan)))
        fs.append(("check problem", lambda: prob.check(dom)))
        fs.append(("pickle domain", lambda: canon.domain(pickle.loads(pickle.dumps(dom)))))
        fs.append(("deepcopy problem", lambda: canon.problem(copy.deepcopy(prob))))
        fs.append(("equal to its copy", lambda: pickle.loads(pickle.dumps(dom)) == dom and copy.deepcopy(prob) == prob))
        acts = sorted(dom.actions, key=lambda a: a.name)
        for a in acts[:3]:
            fs.append(("hash action", lambda a=a: hash(a) == hash(pickle.loads(pickle.dumps(a))) and a == copy.copy(a)))
            objs = list(prob.objects)
            if objs:
                objs.sort()
                for shift in range(4):
                    mp = [objs[(k + shift) % len(objs)] for k in range(len(a.parameters))]
                    fs.append(("instantiate", lambda a=a, mp=mp: canon.ground_action(a.instantiate(mp))))
                    fs.append(("substitute", lambda a=a, mp=mp: parts(a, dict(zip(a.parameters, mp)))))
            for f in (a.precondition, a.effect):
                if f is not None:
                    fs.append(("hash formula", lambda f=f: (hash(f) == hash(f), f in {f}, len({f, copy.copy(f)}))))
                    fs.append(("pickle formula", lambda f=f: canon.formula(pickle.loads(pickle.dumps(f, 2)))))
        fs.append(("sort predicates", lambda: [str(p) for p in sorted(dom.predicates)]))
        fs.append(("init set", lambda: frozenset(map(canon.formula, set(prob.init) | set(list(prob.init))))))
        return fs

    again = mk(copy.deepcopy(dom), copy.deepcopy(prob), copy.deepcopy(plan))
    wants = [safe(f) for _, f in again]
    return [(n, f, w) for (n, f), w in zip(mk(dom, prob, plan), wants)]


def first_uses(r, dom, prob):
    """Operations on objects that nobody has used yet: what is computed once is computed by several threads at once."""

    def fresh(x):
        return pickle.loads(pickle.dumps(x))

    acts = sorted(dom.actions, key=lambda a: a.name)
    fs = [f for a in acts for f in (a.precondition, a.effect) if f is not None] + [prob.goal] + list(dom.derived_predicates) + acts
    fs += list(dom.predicates) + list(dom.functions) + list(prob.init)
    fs = r.sample(fs, min(12, len(fs))) * 3
    them = [fresh(f) for f in fs]
    d, p = fresh(dom), fresh(prob)
    what = r.choice(["hash", "hash", "compare", "print", "check", "instantiate", "documents"])
    if what == "hash":
        f = lambda: [hash(x) for x in them]  # noqa: E731
        want = [hash(x) for x in fs]
    elif what == "compare":
        f = lambda: [x == y for x, y in zip(them, fs)]  # noqa: E731
        want = [True] * len(fs)
    elif what == "print":
        f = lambda: [str(x) for x in them]  # noqa: E731
        want = [str(x) for x in map(fresh, fs)]
    elif what == "check":
        f = lambda: p.check(d)  # noqa: E731
        want = None
        try:
            prob.check(dom)
        except Exception as e:
            return "first check", ("err", type(e).__name__, str(e)[:300]), f
    elif what == "instantiate":
        f = lambda: [canon.ground_action(a.instantiate(a.parameters)) for a in them if hasattr(a, "parameters")]  # noqa: E731
        want = [canon.ground_action(a.instantiate(a.parameters)) for a in map(fresh, fs) if hasattr(a, "parameters")]
    else:
        f = lambda: [str(d), str(p), d == dom, p == prob]  # noqa: E731
        want = [str(dom), str(prob), True, True]
    return "first " + what, ("ok", want), f


def parts(a, mapping):
    return [None if f is None else canon.formula(f.instantiate(mapping)) for f in (a.precondition, a.effect)]


def safe(f):
    try:
        return ("ok", f())
    except Exception as e:  # noqa: B902
        return ("err", type(e).__name__, str(e)[:300])


def case(i, st, ctx):
    r = ctx.rng(i)
    shared = {"texts": [], "files": [], "ops": [], "docs": []}
    pool = ["x", "y", "z", "a", "b", "c"]
    for n in range(r.choice([2, 3])):
        g = gen.Gen(r, pool=pool, size=r.choice([0, 1, 2]))
        d = g.domain()
        p = g.problem(d)
        pl = g.plan(d)
        objs = {}
        for kind, ast in (("domain", d), ("problem", p), ("plan", pl)):
            toks = TOKENS[kind](ast)
            text = " ".join(toks)
            want = SURF[kind](ast)
            objs[kind] = st.seq[kind](text)
            shared["texts"].append((kind, text, ("ok", want)))
            path = os.path.join(st.dir, f"{os.getpid()}-{n}-{kind}.pddl")
            with open(path, "w") as fh:
                fh.write(text)
            shared["files"].append((kind, path, ("ok", want)))
            for m in (mutate(toks, r), toks[:-1]):
                t = " ".join(m)
                got, y = parse(st.seq[kind], t)
                shared["texts"].append((kind, t, ("ok", OBJ[kind](y) if got == "ok" else type(y).__name__)))
        shared["docs"].append((objs["domain"], objs["problem"]))
        shared["ops"] += op_list(st, objs["domain"], objs["problem"], objs["plan"], r)
    nthreads = r.choice([2, 3, 4, 6])
    plans = [jobs(r, st, shared, r.choice([4, 8, 12]), ctx) for _ in range(nthreads)]
    for _ in range(r.choice([1, 2, 3])):
        job = first_uses(r, *r.choice(shared["docs"]))
        ctx.count("first_uses_together")
        plans = [[job, *plan] for plan in plans]
    results = [[] for _ in plans]
    gate = threading.Barrier(nthreads)

    def run(k):
        gate.wait(60)
        for _, _, f in plans[k]:
            results[k].append(safe(f))

    old = sys.getswitchinterval()
    limit = getattr(sys, "tracebacklimit", "unset")
    sys.setswitchinterval(r.choice([1e-6, 1e-5, 1e-4]))
    st.yields.start(r.randrange(2 ** 62), r.choice([0.002, 0.01, 0.03]))
    ts = [threading.Thread(target=run, args=(k,), daemon=True) for k in range(nthreads)]
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        st.yields.stop()
        sys.setswitchinterval(old)
    if getattr(sys, "tracebacklimit", "unset") != limit:
        raise Violation("the settings of the interpreter changed under concurrent parses (tracebacklimit)")
    ids = {}
    trace = tuple((ids.setdefault(t, len(ids)), a, b) for t, a, b in st.yields.trace)
    ctx.count("switches", len(trace))
    ctx.peak("threads", nthreads)
    done = 0
    for k, plan in enumerate(plans):
        for (name, want, _), got in zip(plan, results[k]):
            done += 1
            if want != got:
                raise Violation(f"in a thread, '{name}' gave {str(got)[:900]}; alone it gives {str(want)[:900]}")
        if len(plan) != len(results[k]):
            raise Violation(f"a thread stopped after {len(results[k])} of {len(plan)} operations")
    ctx.seen(trace)
    ctx.evals += done - 1
    ctx.sample([n[:100] for n, _, _ in plans[0]])


__all__ = ["c01", "lang", "reader", "same"]
