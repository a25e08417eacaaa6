"""C12: a parse depends on its text alone, and leaves the interpreter as it was."""
import builtins
import decimal
import faulthandler
import gc
import locale
import logging
import os
import random
import resource
import signal
import sys
import tempfile
import threading
import time
import warnings

from checks import c01
from vlib.h import KINDS, OBJ, PARSER, SURF, TOKENS, gen, lang, mutate, parse, reader, same, Violation

ID = "C12"
TECH = "history monitor: long sequences of good and failing parses by shared parsers, against a reference per text; snapshots of interpreter state"
RULE = "one evaluation = one parse inside a history, compared with what the text alone means; distinct = distinct (previous outcomes, text)"
REQUIRE = ["large_documents", "deep_documents", "failed_in_history", "ok_after_failure", "histories", "earlier_objects_rechecked"]
N = {"quick": 900, "thorough": 20000}
TIMEOUT = 60


class St:
    pass


def cases(tier):
    return N[tier]


def setup():
    st = St()
    st.shared = {k: PARSER[k]() for k in KINDS}
    st.second = {k: PARSER[k]() for k in KINDS}
    st.snap = None
    return st


def umask():
    with open("/proc/self/status") as f:
        return next((x for x in f if x.startswith("Umask")), None)


def snapshot():
    return {
        "tracebacklimit": getattr(sys, "tracebacklimit", "unset"),
        "recursionlimit": sys.getrecursionlimit(),
        "switchinterval": sys.getswitchinterval(),
        "sys.path": tuple(sys.path),
        "argv": tuple(sys.argv),
        "hooks": (sys.excepthook, sys.displayhook, threading.excepthook, sys.unraisablehook),
        "trace": (sys.gettrace(), sys.getprofile()),
        "stdio": (sys.stdin, sys.stdout, sys.stderr),
        "env": dict(os.environ),
        "cwd": os.getcwd(),
        "umask_free": sorted(os.listdir("/proc/self/fd")),
        "warnings": tuple(map(str, warnings.filters)),
        "random": random.getstate(),
        "gc": (gc.isenabled(), gc.get_threshold()),
        "locale": locale.setlocale(locale.LC_ALL),
        "threads": threading.active_count(),
        "logging": (logging.getLogger().level, len(logging.getLogger().handlers), logging.raiseExceptions),
        "sigint": signal.getsignal(signal.SIGINT),
        "dont_write_bytecode": sys.dont_write_bytecode,
        "int_max_str_digits": sys.get_int_max_str_digits(),
        "decimal": str(decimal.getcontext()).partition("flags=")[0],
        "faulthandler": faulthandler.is_enabled(),
        "import hooks": (len(sys.meta_path), len(sys.path_hooks)),
        "builtins": frozenset(vars(builtins)) - {"_"},
        "stack size": threading.stack_size(),
        "tempdir": tempfile.tempdir,
        "umask": umask(),
        "time zone": time.tzname,
        "limits": tuple(resource.getrlimit(k) for k in (resource.RLIMIT_STACK, resource.RLIMIT_AS, resource.RLIMIT_NOFILE, resource.RLIMIT_CPU, resource.RLIMIT_CORE)),
        "alarm": signal.getsignal(signal.SIGTERM),
        "excepthooks": (sys.breakpointhook, getattr(sys, "last_exc", None)),
    }


# one feature each: what it needs, and the smallest text that uses it
SMALL = [
    (":non-deterministic", "(:predicates (p) (q)) (:action a :parameters () :effect (oneof (p) (q)))"),
    (":disjunctive-preconditions", "(:predicates (p) (q)) (:action a :parameters () :precondition (or (p) (q)) :effect (p))"),
    (":disjunctive-preconditions", "(:predicates (p) (q)) (:action a :parameters () :precondition (imply (p) (q)) :effect (p))"),
    (":universal-preconditions", "(:predicates (p ?x)) (:action a :parameters () :precondition (forall (?x) (p ?x)) :effect ())"),
    (":existential-preconditions", "(:predicates (p ?x)) (:action a :parameters () :precondition (exists (?x) (p ?x)) :effect ())"),
    (":equality", "(:predicates (p)) (:action a :parameters (?x ?y) :precondition (= ?x ?y) :effect (p))"),
    (":typing", "(:types a - b) (:predicates (p))"),
    (":typing", "(:types a b) (:predicates (p ?x - a))"),
    (":typing", "(:types a b) (:constants k - a) (:predicates (p))"),
    (":typing", "(:predicates (p ?x - a))"),
    (":strips", "(:predicates (p ?x)) (:action a :parameters () :effect (p k))"),
    (":strips", "(:constants k) (:predicates (p ?x)) (:action a :parameters () :effect (p k))"),
    (":numeric-fluents", "(:predicates (p)) (:functions (f))"),
    (":action-costs", "(:predicates (p)) (:functions (total-cost))"),
    (":derived-predicates", "(:predicates (p ?x)) (:derived (p ?x) (p ?x))"),
    (":derived-predicates", "(:predicates (q ?x)) (:derived (p ?x) (q ?x))"),
    (":adl", "(:predicates (p ?x ?y)) (:action a :parameters (?x) :precondition (forall (?y) (or (p ?x ?y) (= ?x ?y))) :effect ())"),
]


def small(r):
    """Texts that lack what another one before them has."""
    out = []
    for _ in range(r.choice([2, 4, 8])):
        need, body = r.choice(SMALL)
        for req in r.sample([f"(:requirements {need})", "", f"(:requirements {r.choice(SMALL)[0]} {r.choice(SMALL)[0]})", f"(:requirements {need} :strips)"], 2):
            t = f"(define (domain d) {req} {body})"
            try:
                out.append(("domain", t, lang.canon_domain(reader.read("domain", t))))
            except lang.Reject:
                out.append(("domain", t, "reject"))
            except lang.Unsure:
                out.append(("domain", t, None))
    return out


def texts(r, n):
    """Texts that could be confused with each other: few names, other meanings."""
    out = []
    pool = [["x", "y", "z", "a", "b"], ["p", "q", "r", "t", "loc"]][r.randrange(2)]
    for _ in range(n):
        kn = {"pool": pool, "size": r.choice([1, 2])} if r.random() < 0.8 else c01.knobs(r)
        g = gen.Gen(r, **kn)
        d = g.domain()
        p = g.problem(d)
        pl = g.plan(d)
        for kind, ast in (("domain", d), ("problem", p), ("plan", pl)):
            if kind == "plan" and r.random() < 0.7:
                continue
            toks = TOKENS[kind](ast)
            out.append((kind, " ".join(toks), SURF[kind](ast)))
            for _ in range(r.choice([0, 1, 1, 2])):
                x = r.random()
                if x < 0.4:
                    # fails late: everything but the end
                    m = toks[: max(1, len(toks) - r.choice([1, 1, 2, 3, 5, 20]))]
                elif x < 0.5 and ":requirements" in toks:
                    k = toks.index(":requirements")
                    m = toks[: k - 1] + toks[toks.index(")", k) + 1:]
                elif x < 0.65 and kind == "domain":
                    m = [t for t in toks if t not in (r.choice(lang_reqs(toks)),)]
                else:
                    m = mutate(toks, r)
                t = " ".join(m)
                try:
                    out.append((kind, t, SURF[kind](reader.read(kind, t))))
                except lang.Reject:
                    out.append((kind, t, "reject"))
                except lang.Unsure:
                    out.append((kind, t, None))
    if r.random() < 0.6:
        out += small(r)
    r.shuffle(out)
    return out


def lang_reqs(toks):
    return [t for t in toks if t[0] == ":" and t[1:] in lang.REQS] or [":typing"]


def big(r):
    """Texts larger in one way than what the histories hold: what grows with a text must shrink back."""
    n = r.choice([30, 60, 150, 300, 700])
    k = r.randrange(11)
    if k == 9:
        # long words and numbers
        x = r.choice(["1", "12", "0"]) * r.choice([30, 60, 300]) + r.choice(["", "." + "5" * r.choice([1, 30, 400]), "." + "0" * 40 + "1"])
        return "problem", f"(define (problem p) (:domain d) (:init (= (f) {x}) (= (g) 0.{'1' * n})) (:goal (and (< (f) {x}) (> (f) 0.{'3' * n}))) (:metric minimize (* (f) 1.{'7' * n})))"
    if k == 10:
        return "domain", f"(define (domain {'d' * n}) (:predicates ({'pq' * n} ?{'x-' * n})))"
    if k == 0:
        return "domain", "(define (domain d) (:predicates (p)) " + " ".join(f"(:action a{i} :parameters () :effect (p))" for i in range(n)) + ")"
    if k == 1:
        return "domain", f"(define (domain d) (:requirements :typing) (:types {' '.join(f't{i}' for i in range(n))} - o))"
    if k == 2:
        return "domain", f"(define (domain d) (:predicates {' '.join(f'(p{i} ?x)' for i in range(n))} (q {' '.join(f'?v{i}' for i in range(n))})))"
    if k == 3:
        return "problem", f"(define (problem p) (:domain d) (:objects {' '.join(f'o{i}' for i in range(n))}) (:init {' '.join(f'(p o{i})' for i in range(n))}) (:goal (p o1)))"
    if k == 4:
        return "plan", "\n".join(f"(a{i % 7} o{i})" for i in range(n))
    if k == 5:
        return "plan", f"(a {' '.join(f'o{i}' for i in range(n))})"
    n = r.choice([5, 15, 25])
    f = r.choice(["(not {})", "(and (p) {})", "(or {} (p))", "(imply (p) {})", "(forall (?x) {})"])
    g = "(p)"
    for _ in range(n):
        g = f.format(g)
    if k == 6:
        return "domain", f"(define (domain d) (:requirements :adl) (:predicates (p)) (:action a :parameters () :precondition {g} :effect (p)))"
    if k == 7:
        return "problem", f"(define (problem p) (:domain d) (:requirements :adl) (:init) (:goal {g}))"
    return "domain", f"(define (domain d) (:requirements :adl :derived-predicates) (:predicates (p) (q)) (:derived (q) {g}))"


def large(st, ctx, r):
    kind, text = big(r)
    if r.random() < 0.3:
        text = text[: r.randrange(1, len(text))]  # most likely fails, late
    p = r.choice([st.shared, st.second])[kind]
    before = snapshot()
    got, x = parse(p, text)
    ctx.count("large_documents" if len(text) > 1500 else "deep_documents")
    if got == "ok":
        str(x)
    changed(before, "a large text")


def changed(before, what):
    after = snapshot()
    for k in before:
        if before[k] != after[k]:
            raise Violation(f"parsing {what} changed the interpreter: {k}: {str(before[k])[:300]} -> {str(after[k])[:300]}")


def case(i, st, ctx):
    r = ctx.rng(i)
    large(st, ctx, r)
    hist = texts(r, r.choice([4, 8, 8, 14]))
    if r.random() < 0.5:
        hist = hist + r.sample(hist, len(hist) // 2)  # some texts come back
    before = snapshot()
    kept = []
    prev = ("start",)
    fail = 0
    alone = {}
    for n, (kind, text, want) in enumerate(hist):
        ps = st.shared if r.random() < 0.75 else st.second
        got, x = parse(ps[kind], text)
        ctx.seen(prev, text)
        if want is None:
            # not settled by the reference reader: a parser of its own tells what the text means on its own
            if text not in alone and r.random() < 0.3:
                alone[text] = outcome(kind, *parse(PARSER[kind](), text))
            want_o = alone.get(text)
            if want_o is not None and want_o != outcome(kind, got, x):
                raise Violation(f"after a history the verdict or content changes: {str(want_o)[:500]} became {str(outcome(kind, got, x))[:500]}", text=text[:4000])
        elif want == "reject":
            if got == "ok":
                raise Violation("an ill-formed text is accepted after a history", text=text[:4000], history=[t[:600] for _, t, _ in hist[max(0, n - 3):n]])
        else:
            if got != "ok":
                raise Violation(
                    f"a well-formed text is rejected after a history: {type(x).__name__}: {x}", text=text[:4000],
                    history=[t[:1500] for _, t, _ in hist[max(0, n - 3):n]],
                )
            same(want, OBJ[kind](x), "content after a history", text=text[:4000], history=[t[:1500] for _, t, _ in hist[max(0, n - 3):n]])
            if prev[-1] == "err":
                ctx.count("ok_after_failure")
            kept.append((kind, want, x, str(x), text))
        if got == "err":
            ctx.count("failed_in_history")
            fail += 1
            x.__traceback__ = None
            del x
        prev = (prev[-1], kind, got)
    ctx.count("histories")
    ctx.peak("history_length", len(hist))
    changed(before, "a history")
    for kind, want, x, s, text in kept:
        ctx.count("earlier_objects_rechecked")
        same(want, OBJ[kind](x), "an object changed under later parses", text=text[:4000])
        if str(x) != s:
            raise Violation("an object prints differently after later parses", text=text[:4000])


def outcome(kind, got, x):
    return (got, OBJ[kind](x) if got == "ok" else type(x).__name__)
