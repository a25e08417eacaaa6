"""Questions to the library whose answers can be sent between interpreters."""
import copy
import os
import pickle
import tempfile

from . import h
from .build import Builder

from pddl import parse_domain, parse_plan, parse_problem
from pddl.action import Action
from pddl.core import Domain, Plan, Problem
from pddl.logic import functions as F
from pddl.logic.base import And, ForallCondition, Not, Or
from pddl.logic.effects import Forall
from pddl.logic.helpers import constants, variables
from pddl.logic.predicates import DerivedPredicate, EqualTo, Predicate
from pddl.logic.terms import Constant, Term, Variable
from pddl.requirements import Requirements as R

FILE = {"domain": parse_domain, "problem": parse_problem, "plan": parse_plan}
BAD_NAMES = ("", " ", "a b", "?x", "3a", "a!", "a\n", "-", "_a", "and", "define", "é", "forall")


def x_(n="x", *ts):
    return Variable(n, set(ts) or None)


def dom(**kw):
    kw.setdefault("requirements", [R.TYPING])
    return Domain("d", **kw)


P, Q = "p", "q"
# calls that must be refused, each for one reason
REFUSED = {
    "term": lambda: Term("x"),
    "call of a predicate": lambda: Predicate(P, x_())(x_("y"), x_("z")),
    "call of a predicate, no term": lambda: Predicate(P, x_())(),
    "call of a function": lambda: F.NumericFunction("f", x_())(),
    "call of a function, other type": lambda: F.NumericFunction("f", x_("x", "t"))(x_("y", "u")),
    "two typings in a predicate": lambda: Predicate(P, x_("x", "t"), x_("x", "u")),
    "two typings in an equality": lambda: EqualTo(x_("x", "t"), x_("x")),
    "optimization": lambda: F.Metric(F.NumericFunction("f"), "best"),
    "instantiate, too few": lambda: Action("a", [x_()]).instantiate([]),
    "instantiate, too many": lambda: Action("a", []).instantiate([Constant("c")]),
    "no domain": lambda: Problem("p"),
    "two domains": lambda: Problem("p", domain=dom(), domain_name="other"),
    "no domain to give": lambda: Problem("p", domain_name="d").domain,
    "other requirements": lambda: Problem("p", domain=dom(), requirements=[R.STRIPS]),
    "undeclared requirements": lambda: Problem("p", domain_name="d", requirements=[R.ADL]).check(dom()),
    "name of the domain": lambda: Problem("p", domain_name="e").check(dom()),
    "init": lambda: Problem("p", domain_name="d", init=[And(Predicate(P), Predicate(Q))]),
    "init, negated twice": lambda: Problem("p", domain_name="d", init=[Not(Not(Predicate(P)))]),
    "type of an object": lambda: Problem("p", domain=dom(), objects=[Constant("c", "t")]),
    "type of a variable of the goal": lambda: Problem("p", domain=dom(), goal=ForallCondition(Predicate(P), [x_("x", "t")])),
    "cycle of types": lambda: dom(types={"a": "b", "b": "a"}),
    "own supertype": lambda: dom(types={"a": "a"}),
    "supertype of object": lambda: dom(types={"object": "a"}),
    "supertype without typing": lambda: dom(types={"a": "b"}, requirements=[R.STRIPS]),
    "type without typing": lambda: dom(types={"a": None}, requirements=[], constants=[Constant("c", "a")]),
    "type of a constant": lambda: dom(constants=[Constant("c", "t")]),
    "type of a predicate": lambda: dom(predicates=[Predicate(P, x_("x", "t"))]),
    "type of a function": lambda: dom(requirements=[R.TYPING, R.FLUENTS], functions={F.NumericFunction("f", x_("x", "t")): None}),
    "type of a parameter": lambda: dom(actions=[Action("a", [x_("x", "t")])]),
    "type in a precondition": lambda: dom(actions=[Action("a", [], Or(Predicate(P, x_("x", "t")), Predicate(Q)))]),
    "type in an effect": lambda: dom(actions=[Action("a", [], None, Forall(Predicate(P), [x_("x", "t")]))]),
    "type in a derived predicate": lambda: dom(derived_predicates=[DerivedPredicate(Predicate(P, x_("x", "t")), Predicate(Q))]),
    "fluents": lambda: dom(functions={F.NumericFunction("f"): None}),
    "costs": lambda: dom(functions={F.NumericFunction("total-cost"): None}),
    "costs and fluents": lambda: dom(requirements=[R.ACTION_COSTS], functions={F.NumericFunction("total-cost"): None, F.NumericFunction("f"): None}),
    "two types at once": lambda: Variable("x", ["t", "t"]),
    "constants": lambda: constants("a b", ["t"]) and constants("a !"),
    "variables": lambda: variables("x ?"),
    "step unknown": lambda: Plan([("b", [])]).check(dom(actions=[Action("a", [])]), Problem("p", domain_name="d")),
    "step with too many": lambda: Plan([("a", [Constant("c")])]).check(dom(actions=[Action("a", [])]), Problem("p", domain_name="d", objects=[Constant("c")])),
    "step with an unknown object": lambda: Plan([("a", [Constant("c")])]).check(dom(actions=[Action("a", [x_()])]), Problem("p", domain_name="d")),
    "unfold unknown": lambda: Plan([("b", [])]).instantiate(dom()),
    **{f"name {n!r} of a {k.__name__}": (lambda k=k, n=n: k(n)) for n in BAD_NAMES for k in (Constant, Variable, Predicate, F.NumericFunction)},
    **{f"name {n!r} of a domain": (lambda n=n: Domain(n)) for n in BAD_NAMES},
    **{f"name {n!r} of a problem": (lambda n=n: Problem(n, domain_name="d")) for n in BAD_NAMES},
    **{f"name {n!r} of an action": (lambda n=n: Action(n, [])) for n in BAD_NAMES},
    **{f"name {n!r} of a type": (lambda n=n: dom(types={n: None})) for n in BAD_NAMES if n not in ("object",)},
}


class Answers:
    def __init__(self):
        self.p = {k: h.PARSER[k]() for k in h.KINDS}

    def answer(self, q):
        try:
            return ("ok", getattr(self, q[0])(*q[1:]))
        except Exception as e:  # noqa: B902
            return ("err", type(e).__name__)

    def all(self, qs):
        return [self.answer(q) for q in qs]

    def parse(self, kind, text):
        x = self.p[kind](text)
        return h.OBJ[kind](x), str(x)

    def file(self, kind, text):
        with tempfile.TemporaryDirectory() as d:
            fn = os.path.join(d, "f")
            with open(fn, "w", encoding="utf-8") as f:
                f.write(text)
            x = FILE[kind](fn)
        return h.OBJ[kind](x), str(x)

    def trio(self, dtext, ptext, pltext):
        """Whether they fit, and the unfolded plan."""
        d, p, pl = (self.p[k](t) for k, t in zip(h.KINDS, (dtext, ptext, pltext)))
        out = []
        for f in (lambda: p.check(d), lambda: pl.check(d, p), lambda: [h.canon.ground_action(a) for a in pl.instantiate(d)]):
            try:
                out.append(f())
            except Exception as e:  # noqa: B902
                out.append(type(e).__name__)
        try:
            p.domain = d
            out.append(str(p))
        except Exception as e:  # noqa: B902
            out.append(type(e).__name__)
        return out

    def built(self, kind, c):
        x = getattr(Builder(), kind)(c)
        return h.OBJ[kind](x), str(x)

    def copies(self, kind, text):
        x = self.p[kind](text)
        y = copy.deepcopy(x)
        z = pickle.loads(pickle.dumps(x))
        return (x == y, y == z, x != z, h.OBJ[kind](z), str(y))

    def refused(self, name):
        r = REFUSED[name]()
        return "accepted", type(r).__name__
