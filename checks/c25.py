"""C25: the work is bounded: what is asked of the library costs a low power of the size of what it is given."""
import copy
import pickle
import sys

from vlib import env
from vlib.h import PARSER, gen, lang, Violation
from checks import c01
from pddl.action import Action
from pddl.core import Plan
from pddl.logic.base import And, ExistsCondition, ForallCondition, Imply, Not, OneOf, Or
from pddl.logic.effects import Forall, When
from pddl.logic.functions import Divide, GreaterThan, Minus, NumericFunction, NumericValue, Plus, Times
from pddl.logic.predicates import Predicate
from pddl.logic.terms import Constant, Variable

ID = "C25"
TECH = "cost monitor: lines of the library executed, counted by the interpreter, against a bound in the size of the input"
RULE = (
    "one evaluation = one operation on one input of a growing family, its executed library lines counted against the bound; "
    "distinct = distinct (family, size, operation)"
)
REQUIRE = ["measured", "families", "random_documents", "deep", "wide", "long_names"]
N = {"quick": 1600, "thorough": 20000}
TIMEOUT = 120
PREFIX = env.REPO + "/pddl/"


class Over(BaseException):
    pass


class Meter:
    """Counts the lines of the library that are executed; stops the operation when it exceeds its budget."""

    TOOL = 2

    def __init__(self):
        self.n, self.budget = 0, 0

    def _line(self, code, line):
        if not code.co_filename.startswith(PREFIX):
            return sys.monitoring.DISABLE
        self.n += 1
        if self.n > self.budget:
            self.budget = float("inf")
            raise Over()

    def run(self, f, budget):
        m = sys.monitoring
        self.n, self.budget = 0, budget
        m.use_tool_id(self.TOOL, "cost")
        m.register_callback(self.TOOL, m.events.LINE, self._line)
        m.set_events(self.TOOL, m.events.LINE)
        m.restart_events()
        try:
            return f()
        finally:
            m.set_events(self.TOOL, 0)
            m.register_callback(self.TOOL, m.events.LINE, None)
            m.free_tool_id(self.TOOL)


class St:
    pass


def cases(tier):
    return N[tier]


def setup():
    st = St()
    st.p = {k: PARSER[k]() for k in PARSER}
    st.m = Meter()
    return st


# ---------------------------------------------------------------- families
def seq(f, n, sep=" "):
    return sep.join(f(i) for i in range(n))


def dom(types="t", consts="", preds="(p) (q) (r) (u ?x - t)", fns="", structs=""):
    return (
        f"(define (domain d) (:requirements :adl :numeric-fluents :derived-predicates :non-deterministic) (:types {types}) "
        f"(:constants {consts}) (:predicates {preds}) {fns} {structs})"
    )


def act(pre="()", eff="(and (p))", pars="", name="a"):
    return f"(:action {name} :parameters ({pars}) :precondition {pre} :effect {eff})"


def shuffled(r, xs):
    xs = list(xs)
    r.shuffle(xs)
    return " ".join(xs)


WIDE = {
    "flat types": lambda r, n: dom(types=f"t {seq(lambda i: f'a{i}', n)}"),
    "chain of types": lambda r, n: dom(types="t " + seq(lambda i: f"a{i} - a{i + 1}", n)),
    "chain of types, reversed": lambda r, n: dom(types="t " + seq(lambda i: f"a{i + 1} - a{i}", n)),
    "chain of types, mixed": lambda r, n: dom(types="t " + shuffled(r, (f"a{i + 1} - a{i}" for i in range(n)))),
    "tree of types": lambda r, n: dom(types="t " + shuffled(r, (f"a{i + 1} - a{i // 2}" for i in range(n)))),
    "types of one": lambda r, n: dom(types=f"t {seq(lambda i: f'a{i}', n)} - b"),
    "constants": lambda r, n: dom(consts=f"{seq(lambda i: f'c{i}', n)} - t"),
    "constants apart": lambda r, n: dom(consts=seq(lambda i: f"c{i} - t", n)),
    "predicates": lambda r, n: dom(preds="(p) " + seq(lambda i: f"(p{i} ?x ?y - t)", n)),
    "arity": lambda r, n: dom(preds=f"(p) (q2 {seq(lambda i: f'?x{i} - t', n)})"),
    "alternatives": lambda r, n: dom(types=f"t {seq(lambda i: f'a{i}', n)}", preds=f"(p) (u ?x ?y - (either {seq(lambda i: f'a{i}', n)}))"),
    "parameters": lambda r, n: dom(structs=act(pars=seq(lambda i: f"?x{i} - t", n), pre=f"(and {seq(lambda i: f'(u ?x{i})', n)})")),
    "actions": lambda r, n: dom(structs=seq(lambda i: act(name=f"a{i}", pars="?x - t", pre="(u ?x)"), n)),
    "derived": lambda r, n: dom(
        types="t " + seq(lambda i: f"a{i + 1} - a{i}", n), preds="(p) (d ?x - a0)", structs=seq(lambda i: f"(:derived (d ?x - a{n}) (or (p) (d{i} ?x)))", n)),
    "conjunction": lambda r, n: dom(structs=act(pre=f"(and {seq(lambda i: f'(p{i})', n)})")),
    "disjunction of pairs": lambda r, n: dom(structs=act(pre=f"(or {seq(lambda i: f'(and (p{i}) (q{i}))', n)})")),
    "effects": lambda r, n: dom(structs=act(eff=f"(and {seq(lambda i: f'(when (q{i}) (p{i}))', n)})")),
    "outcomes": lambda r, n: dom(structs=act(eff=f"(oneof {seq(lambda i: f'(q{i})', n)})")),
    "functions": lambda r, n: dom(fns=f"(:functions {seq(lambda i: f'(f{i} ?x - t)', n)})"),
    "sum": lambda r, n: dom(fns="(:functions (f))", structs=act(pre=f"(< (f) (+ {seq(lambda i: '(f)', n)}))")),
    "quantified": lambda r, n: dom(structs=act(pre=f"(forall ({seq(lambda i: f'?x{i} - t', n)}) (and {seq(lambda i: f'(u ?x{i})', n)}))")),
    "one requirement again": lambda r, n: f"(define (domain d) (:requirements {seq(lambda i: ':strips', n)}) (:predicates (p)))",
}
UNIT = {
    "not": ("(not ", ")"), "and not": ("(and (q) (not ", "))"), "or and": ("(or (q) (and (r) ", "))"), "imply": ("(imply (q) ", ")"),
    "imply left": ("(imply ", " (q))"), "forall": ("(forall (?x@ - t) ", ")"), "forall same": ("(forall (?x - t) ", ")"),
    "exists and": ("(exists (?x@ - t) (and (u ?x@) ", "))"), "and": ("(and (q) ", ")"), "or": ("(or ", " (q))"),
}
EUNIT = {
    "forall and": ("(forall (?x@ - t) (and (u ?x@) ", "))"), "forall": ("(forall (?x - t) ", ")"),
}
XUNIT = {"+": ("(+ (f) ", ")"), "- left": ("(- ", " (f))"), "* +": ("(* (f) (+ ", " 2))"), "- unary": ("(- ", ")"), "/": ("(/ ", " 3)")}


def nest(r, units, n, core):
    left = right = ""
    for i in range(n):
        a, b = units[r.choice(sorted(units))] if isinstance(units, dict) else units
        left += a.replace("@", str(i))
        right = b.replace("@", str(i)) + right
    return left + core + right


def deep_text(r, n):
    which = r.choice(["gd", "gd one", "eff", "eff one", "exp", "exp one", "when", "derived", "goal"])
    one = lambda u: u[r.choice(sorted(u))]  # noqa: E731
    if which.startswith("exp"):
        t = nest(r, one(XUNIT) if "one" in which else XUNIT, n, "1")
        return which, dom(fns="(:functions (f))", structs=act(pre=f"(< (f) {t})", eff=f"(increase (f) {t})"))
    if which.startswith("eff"):
        return which, dom(structs=act(pars="?y - t", eff=nest(r, one(EUNIT) if "one" in which else EUNIT, n, r.choice(["(p)", "(u ?y)"]))))
    core = "(u ?y)" if which not in ("derived", "goal") and r.random() < 0.7 else "(p)"
    f = nest(r, one(UNIT) if r.random() < 0.6 else UNIT, n, core)
    if which == "when":
        return which, dom(structs=act(pars="?y - t", eff=f"(when {f} (p))"))
    if which == "derived":
        return which, dom(structs=f"(:derived (u ?x - t) {f})")
    return which, dom(structs=act(pars="" if which == "goal" else "?y - t", pre=f))


# ---------------------------------------------------------------- the bound
def bound(size, what):
    """Lines allowed: operations at present take less than a tenth of it."""
    k = 100 if what.startswith("print") else 10  # chains of types are printed in cubic time, with a small factor
    return k * size * size + 300 * size + 20000


def measure(st, ctx, sig, size, f, what, text):
    ctx.count("measured")
    ctx.seen(*sig, what)
    b = bound(size, what)
    try:
        x = st.m.run(f, b)
    except Over:
        raise Violation(f"{what}: more than {b} lines of the library for an input of {size} tokens ({sig})", text=text[:6000])
    ctx.peak(f"permille_of_bound_{what.replace(' ', '_')}", int(1000 * st.m.n / b))
    return x


def case(i, st, ctx):
    r = ctx.rng(i)
    x = i % 8
    if x < 2:
        name = sorted(WIDE)[(i // 8) % len(WIDE)]
        n = r.choice([5, 20, 60, 120] if ctx_tier(ctx) else [5, 20, 60, 120, 250])
        if "chain" in name or name == "derived":
            n = min(n, 100)  # the printer goes through a chain of types again and again: a square, and lists in it
        text = WIDE[name](r, n)
        ctx.count("families")
        ctx.count("wide")
        document(st, ctx, r, (name, n), text)
    elif x < 6:
        n = r.choice([2, 6, 12, 20, 24])
        name, text = deep_text(r, n)
        ctx.count("families")
        ctx.count("deep")
        document(st, ctx, r, (name, n), text)
    elif x == 6:
        g = gen.Gen(r, **c01.knobs(r))
        d = g.domain()
        ctx.count("random_documents")
        document(st, ctx, r, ("random", i), lang.plain(lang.tokens_domain(d)), lang.plain(lang.tokens_problem(g.problem(d))), lang.plain(lang.tokens_plan(g.plan(d))))
    else:
        built(st, ctx, r)
        long_names(st, ctx, r)


def ctx_tier(ctx):
    return env.TIER == "quick"


def document(st, ctx, r, sig, text, ptext=None, pltext=None):
    size = len(text.replace("(", " ( ").replace(")", " ) ").split())
    ctx.peak("tokens", size)
    d = measure(st, ctx, sig, size, lambda: st.p["domain"](text), "parse a domain", text)
    e = st.p["domain"](text)
    observe(st, ctx, r, sig, size, d, e, text)
    printed = measure(st, ctx, sig, size, lambda: str(d), "print a domain", text)
    measure(st, ctx, sig, size, lambda: st.p["domain"](printed), "parse what is printed", text)
    for a in list(d.actions)[:3]:
        k = [Constant("k")] * len(a.parameters)
        measure(st, ctx, sig, size, lambda: a.instantiate(k), "instantiate an action", text)
        for f in (a.precondition, a.effect):
            if f is not None:
                observe(st, ctx, r, sig, size, f, copy.deepcopy(f), text)
                measure(st, ctx, sig, size, lambda: f.instantiate({Variable("y"): Constant("k")}), "instantiate a formula", text)
    if ptext is None:
        pre = next((a.precondition for a in d.actions if a.precondition is not None), None)
        ptext = f"(define (problem p) (:domain d) (:requirements :adl) (:objects o - t) (:init (p)) (:goal {'(p)' if pre is None or '?' in str(pre) and 'parameters' in sig[0] else pre}))"
        if any(a.parameters for a in d.actions):
            ptext = "(define (problem p) (:domain d) (:objects o - t) (:init (p)) (:goal (p)))"
    psize = size + len(ptext.replace("(", " ( ").replace(")", " ) ").split())
    p = measure(st, ctx, sig, psize, lambda: st.p["problem"](ptext), "parse a problem", ptext)
    observe(st, ctx, r, sig, psize, p, st.p["problem"](ptext), ptext)
    measure(st, ctx, sig, psize, lambda: quiet(lambda: p.check(d)), "check a problem", text)
    measure(st, ctx, sig, psize, lambda: str(p), "print a problem", text)
    n = r.choice([3, 30, 30, 200])
    acts = sorted(d.actions, key=lambda a: a.name)
    if pltext is not None:
        plan = measure(st, ctx, sig, psize + len(pltext.split()), lambda: st.p["plan"](pltext), "parse a plan", pltext)
    elif acts:
        plan = Plan([(str(a.name), [Constant("o")] * len(a.parameters)) for a in (acts * n)[:n]])
    else:
        return
    size = psize + 3 * len(plan.actions) + sum(len(s[1]) for s in plan.actions)
    measure(st, ctx, sig, size, lambda: quiet(lambda: plan.check(d, p)), "check a plan", text)
    # each step copies its action
    measure(st, ctx, sig, size * 4 + len(plan.actions) * 20, lambda: quiet(lambda: plan.instantiate(d)), "unfold a plan", text)


def quiet(f):
    from pddl.exceptions import PDDLError

    try:
        return f()
    except (PDDLError, ValueError, AssertionError):
        return None


def observe(st, ctx, r, sig, size, x, y, text):
    ops = [
        ("compare", lambda: x == y), ("compare with itself", lambda: x == x), ("copy", lambda: copy.deepcopy(x)),
        ("pickle", lambda: pickle.loads(pickle.dumps(x))), ("repr", lambda: repr(x)), ("print", lambda: str(x)),
    ]
    if type(x).__hash__ is not None:
        ops += [("hash", lambda: hash(y)), ("hash again", lambda: hash(x)), ("look up", lambda: y in {x})]
    for what, f in ops:
        try:
            measure(st, ctx, sig, size, f, f"{what} {'a document' if type(x).__hash__ is None else 'a formula'}", text)
        except (TypeError, RecursionError):
            # no order, no repr, pickles too deep for the interpreter
            ctx.count("not_measured")


def built(st, ctx, r):
    """Deep and shared structures built by hand: a shared part counts as often as it occurs."""
    n = r.choice([3, 6, 10, 14])
    p, q = Predicate("p", Variable("x")), Predicate("q")
    f, size = p, 4
    kinds = ["not", "and", "or", "imply", "oneof", "forall", "exists", "when", "eforall", ">>"]
    if r.random() < 0.5:
        # a chain of one or two kinds, deep enough for what doubles with each level
        kinds = [k for k in r.sample(kinds, 2) if k != "exists"] or ["not"]
        n = 22
    for k in range(n):
        w = r.choice(kinds)
        f = {
            "not": lambda: Not(f), "and": lambda: And(f, q, Predicate(f"p{k}")), "or": lambda: Or(Predicate(f"p{k}"), f), "imply": lambda: Imply(q, f),
            "oneof": lambda: OneOf(f, q), "forall": lambda: ForallCondition(f, [Variable(f"v{k}")]), "exists": lambda: ExistsCondition(f, [Variable("x")]),
            "when": lambda: When(q, f), "eforall": lambda: Forall(f, [Variable("v", ["t"])]), ">>": lambda: q >> f if hasattr(q, "__rshift__") else f,
        }[w]()
        size += 12
    sig = ("built", n)
    observe(st, ctx, r, sig, size, f, copy.deepcopy(f), repr(sig))
    measure(st, ctx, sig, size, lambda: f.instantiate({Variable("x"): Constant("k")}), "instantiate a formula", repr(sig))
    a = Action("a", [Variable("x")], f, None)
    measure(st, ctx, sig, size + 4, lambda: a.instantiate([Constant("k")]), "instantiate an action", repr(sig))
    e = NumericFunction("f", Variable("x"))
    for k in range(n):
        e = r.choice([Plus, Minus, Times, Divide])(*r.choice([(e, NumericValue(k)), (NumericValue(k), e), (NumericFunction("g"), e)]))
    c = GreaterThan(e, NumericValue(1))
    observe(st, ctx, r, sig, size, c, copy.deepcopy(c), repr(sig))
    measure(st, ctx, sig, size, lambda: c.instantiate({Variable("x"): Constant("k")}), "instantiate a formula", repr(sig))


def long_names(st, ctx, r):
    """Names and numbers of thousands of letters, good and nearly good: an answer, in time (the watchdog of the case)."""
    ctx.count("long_names")
    n = r.choice([100, 3000, 30000])
    good = r.choice(["a" * n, "a-" * n, "a_b" * n, "a1" * n])
    bad = good + r.choice(["!", " ", "\n", "é", "(", "?"])
    measure(st, ctx, ("long", n), 20, lambda: Constant(good), "make a name", good[:50])
    for mk in (Constant, Variable, Predicate):
        try:
            mk(bad)
        except ValueError:
            continue
        raise Violation(f"{mk.__name__} accepts a name that ends in {bad[-1]!r}")
    text = f"(define (problem p) (:domain d) (:objects {good}) (:init (= (f) {'1' * 300}.{'0' * 300}1) ) (:goal (and)))" + ";" * n
    measure(st, ctx, ("long", n), 60, lambda: st.p["problem"](text), "parse long words", text[:100])
    text = f"(define (problem p) (:domain d) (:objects {good}{' ' * n}){chr(10) * n}(:goal (and)){'(' * min(n, 3000)}"
    try:
        measure(st, ctx, ("long", n), 5000, lambda: st.p["problem"](text), "parse long words", text[:100])
    except Violation:
        raise
    except Exception:
        ctx.count("long_refused")
    else:
        raise Violation("an unfinished text is accepted", text=text[:300])
