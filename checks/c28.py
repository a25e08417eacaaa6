"""C28: the library keeps nothing: what the user drops is gone, and a long-running process does not grow."""
import copy
import gc
import os
import pickle
import sys
import tempfile
import weakref

import pddl
from pddl.action import Action
from pddl.core import Domain, Plan, Problem
from pddl.exceptions import PDDLError
from pddl.logic.base import And, BinaryOp, ForallCondition, Formula, Not, Or
from pddl.logic.effects import Forall, When
from pddl.logic.functions import Increase, Metric, NumericFunction, NumericValue, Plus
from pddl.logic.helpers import constants, variables
from pddl.logic.predicates import DerivedPredicate, EqualTo, Predicate
from pddl.logic.terms import Constant, Variable
from pddl.requirements import Requirements as R
from vlib.h import KINDS, ORDERLY, PARSER, Violation

ID = "C28"
TECH = "lifetime monitor: weak references to documents and the allocator's block count over long runs of fresh inputs"
RULE = "one evaluation = one operation on inputs never seen before, in a run whose memory is measured; distinct = distinct (operation, run, input)"
REQUIRE = ["operations", "runs", "documents_dropped", "documents_gone"]
TIMEOUT = 300
WARM, SPAN = 700, 400
N = {"quick": 44, "thorough": 400}


LAST = {"domain": "(define (domain d))", "problem": "(define (problem p) (:domain d) (:init) (:goal (and)))", "plan": "(a)"}


class St:
    pass


def cases(tier):
    return N[tier]


def setup():
    st = St()
    st.p = {k: PARSER[k]() for k in KINDS}
    st.dir = tempfile.mkdtemp(prefix="verif-c28-")
    return st


def teardown(st, ctx):
    import shutil

    shutil.rmtree(st.dir, ignore_errors=True)


# n is a number of a fixed number of digits: every input is new, and no longer than the others
def dtext(n):
    return (
        f"(define (domain d{n}) (:requirements :adl :numeric-fluents :derived-predicates :non-deterministic) (:types t{n} - u{n}) (:constants k{n} - t{n}) "
        f"(:predicates (p{n} ?x{n} - t{n}) (q{n})) (:functions (f{n} ?x{n} - t{n})) (:derived (q{n}) (p{n} k{n})) (:action a{n} :parameters (?x{n} - t{n}) "
        f":precondition (and (p{n} ?x{n}) (forall (?y{n} - t{n}) (or (p{n} ?y{n}) (= ?x{n} ?y{n}) (not (q{n}))))) "
        f":effect (and (oneof (q{n}) (p{n} ?x{n})) (when (q{n}) (not (p{n} ?x{n}))) (increase (f{n} ?x{n}) {n}))))"
    )


def ptext(n):
    return (
        f"(define (problem r{n}) (:domain d{n}) (:requirements :adl) (:objects o{n} - t{n}) (:init (p{n} o{n}) (= (f{n} o{n}) {n})) "
        f"(:goal (and (p{n} o{n}) (not (q{n})))) (:metric minimize (+ (f{n} o{n}) {n})))"
    )


def pltext(n):
    return f"(a{n} o{n}) (a{n} k{n})"


def broken(t, n):
    return [t[:-1], t.replace("(:types", "(:typos"), t.replace(f"k{n})", f"unknown{n})"), t.replace(":adl", ""), t.replace(" - ", " -- "), t + ")", ""][n % 7]


def orderly(f):
    try:
        return f()
    except (*ORDERLY, ValueError, AssertionError, PDDLError):
        return None


def built(n):
    x, y, k = Variable(f"x{n}", [f"t{n}"]), Variable(f"y{n}"), Constant(f"k{n}", f"t{n}")
    p, f = Predicate(f"p{n}", x), NumericFunction(f"f{n}", x)
    a = Action(f"a{n}", [x], And(p, Or(Not(p), EqualTo(x, k)), ForallCondition(p, [y])), And(When(p, Not(p)), Forall(p, {y}), Increase(f, NumericValue(n))))
    d = Domain(
        f"d{n}", [R.ADL, R.FLUENTS, R.DERIVED_PREDICATES], {f"t{n}": f"u{n}"}, [k], [p], [DerivedPredicate(p, Predicate(f"q{n}"))], {f: None}, [a],
    )
    r = Problem(f"r{n}", domain=d, objects=[k], init=[p(k)], goal=p(k), metric=Metric(Plus(f, NumericValue(n))))
    return d, r, Plan([(f"a{n}", [k])])


def trio(st, n):
    return tuple(st.p[k](t(n)) for k, t in zip(KINDS, (dtext, ptext, pltext)))


def on(f):
    """An operation on what is built anew."""
    return lambda st, n: f(*built(n))


def hashes(d, r, pl):
    for a in d.actions:
        hash(a), hash(a.precondition), hash(a.effect), {a}, {a.precondition: a}


def sort(d, r, pl):
    sorted(d.predicates | {Predicate("p", Constant(str(d.name)))}), sorted(d.requirements), sorted(r.objects)


def assign(d, r, pl):
    r.domain = d
    x = Problem(str(r.name), domain_name=str(d.name))
    x.domain = d


def refused(n):
    """What is given to constructors and calls that refuse it."""
    d, r, pl = built(n)
    (a,) = d.actions
    orderly(lambda: Domain(f"d{n}", [R.TYPING], {}, actions=[a]))
    orderly(lambda: Problem(f"r{n}", domain=d, domain_name=f"e{n}"))
    orderly(lambda: r.check(Domain(f"e{n}", actions=[])))
    orderly(lambda: a.instantiate([]))
    orderly(lambda: pl.check(Domain(f"d{n}"), r))
    orderly(lambda: pl.instantiate(Domain(f"d{n}")))
    orderly(lambda: setattr(r, "domain", Domain(f"d{n}")))
    return d, r, pl, a


def helper(st, n):
    fn = os.path.join(st.dir, f"{os.getpid()}")
    out = []
    for k, t, f in zip(KINDS, (dtext, ptext, pltext), (pddl.parse_domain, pddl.parse_problem, pddl.parse_plan)):
        if n % 3 != KINDS.index(k):
            continue  # a parser is made for each
        with open(fn, "w") as fh:
            fh.write(t(n))
        out.append(f(fn))
    return out


OPS = {
    "parse a domain": lambda st, n: (st.p["domain"](dtext(n)),),
    "parse a problem": lambda st, n: (st.p["problem"](ptext(n)),),
    "parse a plan": lambda st, n: (st.p["plan"](pltext(n)),),
    "refuse a domain": lambda st, n: orderly(lambda: st.p["domain"](broken(dtext(n), n))),
    "refuse a problem": lambda st, n: orderly(lambda: st.p["problem"](broken(ptext(n), n))),
    "refuse a plan": lambda st, n: orderly(lambda: st.p["plan"](pltext(n) + f"(a{n} ?o{n}")),
    "build": lambda st, n: built(n),
    "refuse to build": lambda st, n: [
        orderly(lambda: Domain(f"d{n}", [R.TYPING], {f"a{n}": f"b{n}", f"b{n}": f"a{n}"})), orderly(lambda: Predicate(f"p{n}", Variable(f"x{n}", ["t"]), Variable(f"x{n}"))),
        orderly(lambda: Constant(f"k{n}!")), orderly(lambda: Problem(f"p{n}", domain_name="d", init=[And(Predicate(f"p{n}"), Predicate("q"))])),
    ],
    "refuse what is given": lambda st, n: refused(n),
    "print": on(lambda d, r, pl: (str(d), str(r), str(pl), repr(list(d.actions)))),
    "compare": on(lambda d, r, pl: (d == d, r == r, pl == pl, d == built(1234567)[0], r != d)),
    "hash": on(hashes),
    "sort": on(sort),
    "copy": on(lambda d, r, pl: copy.deepcopy((d, r, pl))),
    "pickle": on(lambda d, r, pl: pickle.loads(pickle.dumps((d, r, pl)))),
    "check": on(lambda d, r, pl: (r.check(d), pl.check(d, r))),
    "attach a domain": on(assign),
    "unfold": on(lambda d, r, pl: pl.instantiate(d)),
    "instantiate": on(lambda d, r, pl: [a.instantiate([Constant("o")]) for a in d.actions]),
    "helpers": lambda st, n: (constants(f"a{n} b{n}", f"t{n}"), variables(f"x{n} y{n}", [f"t{n}"])),
    "read files": helper,
    "all": lambda st, n: [str(x) for x in trio(st, n)],
}


def settle(st):
    """A parser may hold on to its last text."""
    for k, t in zip(KINDS, (dtext, ptext, pltext)):
        st.p[k](t(1111111))
    gc.collect()


def blocks():
    gc.collect()
    gc.collect()
    return sys.getallocatedblocks()


def case(i, st, ctx):
    r = ctx.rng(i)
    name = sorted(OPS)[i % len(OPS)]
    slow = name == "read files"
    warm, span = (120, 40) if slow else (WARM, SPAN)
    op = OPS[name]
    n = r.randrange(2_000_000, 8_000_000)

    def run(k):
        for j in range(n, n + k):
            op(st, j)
        return n + k

    n = run(warm)
    settle(st)
    b0 = blocks()
    n = run(span)
    settle(st)
    b1 = blocks()
    n = run(span)
    settle(st)
    b2 = blocks()
    for j in range(warm + 2 * span):
        ctx.seen(name, i, j)
        ctx.count("operations")
    ctx.count("runs")
    growth = min(b1 - b0, b2 - b1)
    ctx.peak("blocks_gained_in_a_run", max(0, growth))
    # (making a parser, as the file helpers do, fills the tables of Lark for long: a few blocks each)
    if growth > (6 * span if slow else span // 4):
        raise Violation(f"{name}: every {span} operations leave {b1 - b0}, then {b2 - b1} blocks of memory behind", seed=str(n))
    dropped(st, ctx, name, op, n)


def parts(x):
    """Weak references to the documents, actions and formulas of what an operation returns."""
    refs, todo = [], list(x) if isinstance(x, (list, tuple)) else [x]
    while todo:
        y = todo.pop()
        if isinstance(y, Domain):
            todo.extend([*y.actions, *y.derived_predicates, *y.predicates, *y.functions])
        elif isinstance(y, Problem):
            todo.extend([y.goal, y.metric, *y.init])
        elif isinstance(y, Action):
            todo.extend([y.precondition, y.effect])
        elif isinstance(y, (list, tuple)):
            todo.extend(y)
            continue
        elif isinstance(y, BinaryOp):
            todo.extend(y.operands)
        elif not isinstance(y, (Plan, Formula)):
            continue
        refs.append(weakref.ref(y))
    return refs


def dropped(st, ctx, name, op, n):
    """References to the documents themselves, and to their formulas: all gone after each operation."""
    kept = []
    for j in range(n, n + 12):
        refs = parts(op(st, j))
        if not refs:
            return
        ctx.count("documents_dropped", len(refs))
        for k, t in LAST.items():  # a parser may hold on to its last text
            st.p[k](t)
        gc.collect()
        alive = [r() for r in refs if r() is not None]
        ctx.count("documents_gone", len(refs) - len(alive))
        kept.append(sorted({type(y).__name__ for y in alive}))
        del alive
    if all(kept):
        raise Violation(f"{name}: what is dropped is kept ({', '.join(kept[-1])}): so after each of {len(kept)} operations", seed=str(n))
