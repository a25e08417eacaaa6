"""Canonical values -> library objects, through the public constructors."""
from fractions import Fraction

from . import env  # noqa: F401

from pddl.action import Action
from pddl.core import Domain, Plan, Problem
from pddl.logic import functions as F
from pddl.logic.base import And, ExistsCondition, ForallCondition, Imply, Not, OneOf, Or
from pddl.logic.effects import Forall, When
from pddl.logic.predicates import DerivedPredicate, EqualTo, Predicate
from pddl.logic.terms import Constant, Variable
from pddl.requirements import Requirements

CMP = {
    "=": F.EqualTo, "<": F.LesserThan, "<=": F.LesserEqualThan, ">": F.GreaterThan, ">=": F.GreaterEqualThan,
    "assign": F.Assign, "scale-up": F.ScaleUp, "scale-down": F.ScaleDown, "increase": F.Increase, "decrease": F.Decrease,
}
OP = {"+": F.Plus, "-": F.Minus, "*": F.Times, "/": F.Divide}


class Builder:
    """`rng` shuffles what has no order and varies the kind of collection given."""

    def __init__(self, rng=None, numbers=None):
        self.rng = rng
        self.numbers = rng if numbers is None else None  # the same number is an int or a float at will, or not

    def coll(self, xs):
        xs = list(xs)
        if self.rng is None:
            return xs
        self.rng.shuffle(xs)
        return self.rng.choice([list, tuple, list])(xs)

    def tags(self, types):
        ts = sorted(types)
        if not ts:
            return None if self.rng is None or self.rng.random() < 0.7 else set()
        if self.rng is None:
            return ts
        self.rng.shuffle(ts)
        return self.rng.choice([list, tuple, set, frozenset])(ts)

    def var(self, name, types):
        return Variable(name, self.tags(types))

    def vars(self, vs):
        return [self.var(n, t) for n, t in vs]

    def term(self, t):
        if t[0] == "var":
            return self.var(t[1], t[2])
        return Constant(t[1], t[2] if len(t) > 2 else None)

    def num(self, v):
        if v.denominator == 1 and (self.numbers is None or self.rng.random() < 0.7 or Fraction(float(v)) != v):
            return F.NumericValue(int(v))
        return F.NumericValue(float(v))

    def exp(self, e):
        if e[0] == "num":
            return self.num(e[1])
        if e[0] == "fun":
            return F.NumericFunction(e[1], *map(self.term, e[2]))
        return OP[e[1]](*map(self.exp, e[2]))

    def formula(self, f):
        if f is None:
            return None
        k = f[0]
        if k == "pred":
            return Predicate(f[1], *map(self.term, f[2]))
        if k == "eq":
            return EqualTo(self.term(f[1]), self.term(f[2]))
        if k in ("and", "or"):
            return (And if k == "and" else Or)(*map(self.formula, f[1]))
        if k == "not":
            return Not(self.formula(f[1]))
        if k == "imply":
            return Imply(self.formula(f[1]), self.formula(f[2]))
        if k == "oneof":
            return OneOf(*map(self.formula, f[1]))
        if k in ("forall", "exists"):
            cls = ForallCondition if k == "forall" else ExistsCondition
            return cls(self.formula(f[2]), self.coll(self.vars(sorted(f[1], key=str))))
        if k == "eforall":
            return Forall(self.formula(f[2]), self.coll(self.vars(sorted(f[1], key=str))))
        if k == "when":
            return When(self.formula(f[1]), self.formula(f[2]))
        if k == "cmp":
            return CMP[f[1]](*map(self.exp, f[2]))
        if k in ("num", "fun", "op"):
            return self.exp(f)
        raise AssertionError(k)

    def metric(self, m):
        if m is None:
            return None
        return F.Metric(self.exp(m[1]), m[0])

    def reqs(self, rs):
        return self.coll(Requirements(r) for r in sorted(rs))

    def action(self, a):
        return Action(a[0], self.vars(a[1]), self.formula(a[2]), self.formula(a[3]))

    def derived(self, x):
        return DerivedPredicate(
            Predicate(x[0], *self.vars(x[1])), self.formula(x[2])
        )

    def domain(self, c, explicit_object=False):
        types = list(c["types"].items())
        if explicit_object:
            # a type without a parent is one whose parent is the predefined type
            types = [(t, p if p or t == "object" else self.rng.choice([None, "object", "object"])) for t, p in types]
        funcs = sorted(c["funcs"], key=str)
        if self.rng is not None:
            self.rng.shuffle(types)
            self.rng.shuffle(funcs)
        key = str
        return Domain(
            c["name"],
            requirements=self.reqs(c["reqs"]),
            types=dict(types),
            constants=self.coll(Constant(n, t) for n, t in sorted(c["constants"], key=key)),
            predicates=self.coll(Predicate(n, *self.vars(vs)) for n, vs in sorted(c["preds"], key=key)),
            functions={F.NumericFunction(n, *self.vars(vs)): t for n, vs, t in funcs},
            actions=self.coll(self.action(a) for a in sorted(c["actions"], key=key)),
            derived_predicates=self.coll(self.derived(x) for x in sorted(c["derived"], key=key)),
        )

    def problem(self, c, domain=None, declare=True):
        kw = dict(
            objects=self.coll(Constant(n, t) for n, t in sorted(c["objects"], key=str)),
            init=self.coll(self.formula(f) for f in sorted(c["init"], key=str)),
            goal=self.formula(c["goal"]),
            metric=self.metric(c["metric"]),
        )
        if domain is not None:
            return Problem(c["name"], domain=domain, **kw)
        return Problem(
            c["name"], domain_name=c["domain"], requirements=self.reqs(c["reqs"]) if declare else None, **kw
        )

    def plan(self, c):
        # (the arguments of a step are a sequence, and its name a word)
        seq = list if self.rng is None else self.rng.choice([list, list, tuple])
        return Plan([(n, seq(Constant(a) for a in args)) for n, args in c])
