"""Canonical value of the objects of the library, read through their public accessors only."""
from fractions import Fraction

from . import env  # noqa: F401  (puts /repo on sys.path)
from .lang import norm_nary

from pddl.action import Action
from pddl.core import Domain, Plan, Problem
from pddl.logic.base import And, ExistsCondition, ForallCondition, Imply, Not, OneOf, Or
from pddl.logic.effects import Forall, When
from pddl.logic import functions as F
from pddl.logic.predicates import DerivedPredicate, EqualTo, Predicate
from pddl.logic.terms import Constant, Variable

FUN_SYM = [
    (F.EqualTo, "="), (F.LesserThan, "<"), (F.LesserEqualThan, "<="), (F.GreaterThan, ">"),
    (F.GreaterEqualThan, ">="), (F.Assign, "assign"), (F.ScaleUp, "scale-up"), (F.ScaleDown, "scale-down"),
    (F.Increase, "increase"), (F.Decrease, "decrease"),
]
ARITH = [(F.Minus, "-"), (F.Plus, "+"), (F.Times, "*"), (F.Divide, "/")]


def types(tags):
    return frozenset(str(t) for t in tags)


def s(x):
    """A plain str out of a str subclass (a non-string shows up as such)."""
    return str.__str__(x) if isinstance(x, str) else ("notstr", repr(x))


def term(t, ctype=False):
    if isinstance(t, Variable):
        return ("var", s(t.name), types(t.type_tags))
    if isinstance(t, Constant):
        if ctype:
            return ("const", s(t.name), None if t.type_tag is None else s(t.type_tag))
        return ("const", s(t.name))
    return ("?term", type(t).__name__, repr(t))


def exp(e, ct=False):
    if isinstance(e, F.NumericFunction):
        return ("fun", s(e.name), tuple(term(t, ct) for t in e.terms))
    if isinstance(e, F.NumericValue):
        v = e.value
        if isinstance(v, (int, float)) and not isinstance(v, bool) and v == v and v not in (float("inf"), -float("inf")):
            return ("num", Fraction(v))
        return ("badnum", type(v).__name__, repr(v))
    for cls, sym in ARITH:
        if isinstance(e, cls):
            return ("op", sym, tuple(exp(x, ct) for x in e.operands))
    return ("?exp", type(e).__name__, repr(e))


def formula(f, ct=False):
    if f is None:
        return None
    if isinstance(f, Predicate):
        return ("pred", s(f.name), tuple(term(t, ct) for t in f.terms))
    if isinstance(f, EqualTo):
        return ("eq", term(f.left, ct), term(f.right, ct))
    if isinstance(f, And):
        return norm_nary("and", [formula(x, ct) for x in f.operands])
    if isinstance(f, Or):
        return norm_nary("or", [formula(x, ct) for x in f.operands])
    if isinstance(f, Not):
        return ("not", formula(f.argument, ct))
    if isinstance(f, Imply):
        ops = tuple(formula(x, ct) for x in f.operands)
        return ("imply", *ops)
    if isinstance(f, OneOf):
        return ("oneof", tuple(formula(x, ct) for x in f.operands))
    if isinstance(f, (ForallCondition, ExistsCondition)):
        k = "forall" if isinstance(f, ForallCondition) else "exists"
        return (k, frozenset((s(v.name), types(v.type_tags)) for v in f.variables), formula(f.condition, ct))
    if isinstance(f, Forall):
        return (
            "eforall",
            frozenset((s(v.name), types(v.type_tags)) for v in f.variables),
            formula(f.effect, ct),
        )
    if isinstance(f, When):
        return ("when", formula(f.condition, ct), formula(f.effect, ct))
    for cls, sym in FUN_SYM:
        if isinstance(f, cls):
            return ("cmp", sym, tuple(exp(x, ct) for x in f.operands))
    if isinstance(f, DerivedPredicate):
        return ("derived", formula(f.predicate, ct), formula(f.condition, ct))
    if isinstance(f, F.FunctionExpression):
        return exp(f, ct)
    if isinstance(f, F.Metric):
        return metric(f)
    return ("?formula", type(f).__name__, repr(f))


def metric(m):
    return None if m is None else (s(m.optimization), exp(m.expression))


def params(vs):
    """Parameters; anything but a variable shows up as such."""
    return tuple(
        (s(v.name), types(v.type_tags)) if isinstance(v, Variable) else term(v) for v in vs
    )


def action(a, ct=False):
    if not isinstance(a, Action):
        return ("?action", repr(a))
    return (s(a.name), params(a.parameters), formula(a.precondition, ct), formula(a.effect, ct))


def ground_action(a):
    return (s(a.name), tuple(term(t) for t in a.parameters), formula(a.precondition), formula(a.effect))


def domain(d, ct=True):
    if not isinstance(d, Domain):
        return ("?domain", repr(d))
    return {
        "name": s(d.name),
        "reqs": frozenset(str(r.value) for r in d.requirements),
        "types": {s(k): (None if v is None else s(v)) for k, v in d.types.items()},
        "constants": frozenset((s(c.name), None if c.type_tag is None else s(c.type_tag)) for c in d.constants),
        "preds": frozenset((s(p.name), params(p.terms)) for p in d.predicates),
        "funcs": frozenset(
            (s(f.name), params(f.terms), None if t is None else s(t)) for f, t in d.functions.items()
        ),
        "actions": frozenset(action(a, ct) for a in d.actions),
        "derived": frozenset(
            (s(x.predicate.name), params(x.predicate.terms), formula(x.condition, ct)) for x in d.derived_predicates
        ),
    }


def problem(p):
    if not isinstance(p, Problem):
        return ("?problem", repr(p))
    return {
        "name": s(p.name),
        "domain": s(p.domain_name),
        "reqs": frozenset(str(r.value) for r in p.requirements),
        "objects": frozenset((s(c.name), None if c.type_tag is None else s(c.type_tag)) for c in p.objects),
        "init": frozenset(formula(x) for x in p.init),
        "goal": formula(p.goal),
        "metric": metric(p.metric),
    }


def plan(pl):
    if not isinstance(pl, Plan):
        return ("?plan", repr(pl))
    return tuple((s(n), tuple(term(a)[1] if isinstance(a, Constant) else repr(a) for a in args)) for n, args in pl.actions)


def diff(a, b, path=""):
    """First difference between two canonical values, for humans."""
    if type(a) is not type(b):
        return f"{path}: expected {a!r}, got {b!r}"
    if isinstance(a, dict):
        for k in a:
            if k not in b:
                return f"{path}.{k}: missing"
            if a[k] != b[k]:
                return diff(a[k], b[k], f"{path}.{k}")
        for k in b:
            if k not in a:
                return f"{path}.{k}: unexpected {b[k]!r}"
    if isinstance(a, frozenset):
        return f"{path}: expected but absent {sorted(map(repr, a - b))}, unexpected {sorted(map(repr, b - a))}"
    if isinstance(a, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, f"{path}[{i}]")
    return f"{path}: expected {a!r}, got {b!r}"
