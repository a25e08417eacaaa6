"""C22: the orders of the library are orders."""
import random

from checks import c01
from vlib import vary
from vlib.h import Builder, gen, lang, Violation
from checks.c17 import bare, consistent, quiet, renorm
from pddl.custom_types import name as name_type
from pddl.logic.base import ExistsCondition, ForallCondition
from pddl.logic.effects import Forall, When
from pddl.logic.functions import NumericFunction, NumericValue
from pddl.logic.predicates import DerivedPredicate, Predicate
from pddl.logic.terms import Constant, Variable
from pddl.requirements import Requirements

ID = "C22"
TECH = "algebraic monitor: the laws of strict orders over all pairs and triples of pools of near-equal objects"
RULE = "one evaluation = one pool of objects of a class, all pairs, triples and several sorts judged; distinct = distinct pools"
REQUIRE = ["pairs", "triples", "sorts", "incomparable", "constants", "variables", "predicates", "functions", "values", "requirements", "quantified", "derived", "effects"]
N = {"quick": 90000, "thorough": 2000000}
NAMES = ["a", "b", "A", "a1", "a-", "ab", "x", "y", "z9", "a_"]
TYPES = ["t", "u", "T", "t1", "t-", "object"]


class St:
    pass


def cases(tier):
    return N[tier]


def setup():
    return St()


def a_var(r):
    return Variable(r.choice(NAMES), r.sample(TYPES, r.choice([0, 0, 1, 1, 2, 3, 4, 5])))


def a_const(r):
    return Constant(r.choice(NAMES), r.choice([None, *TYPES]))


def a_pred(r, cls=Predicate):
    while True:
        try:
            return cls(r.choice(NAMES[:4]), *[r.choice([a_var, a_const])(r) for _ in range(r.choice([0, 1, 1, 2, 2, 3]))])
        except ValueError:
            pass


def retyped(r, tags):
    """Other types, often near the given ones."""
    if r.random() < 0.4:
        return r.sample(TYPES, r.choice([0, 1, 2]))
    out = sorted(tags)
    if out and r.random() < 0.7:
        out.remove(r.choice(out))
    if r.random() < 0.7:
        out.append(r.choice([t for t in TYPES if t not in out] or ["zz"]))
    return out


def near(r, cls=Predicate):
    """An atom and others that differ from it in the type or the kind of one term."""
    a = a_pred(r, cls)
    while not a.terms:
        a = a_pred(r, cls)
    out = [a]
    for _ in range(3):
        ts = list(a.terms)
        k = r.randrange(len(ts))
        n, tags = ts[k].name, ts[k].type_tags
        ts[k] = r.choice([lambda: Variable(n, retyped(r, tags)), lambda: Constant(n, r.choice([None, *TYPES]))])()
        try:
            out.append(cls(a.name, *ts))
        except ValueError:
            pass
    return out


class Atoms:
    """Where the atoms of a pool come from: few near-equal ones, or any."""

    def __init__(self, r, cls=Predicate):
        self.r, self.cls, self.few = r, cls, near(r, cls) if r.random() < 0.4 else None

    def __call__(self):
        return self.r.choice(self.few) if self.few else a_pred(self.r, self.cls)


def case(i, st, ctx):
    r = ctx.rng(i)
    what = ["constants", "variables", "predicates", "functions", "values", "requirements", "quantified", "derived", "effects", "terms", "atoms_of_a_domain"][i % 11]
    atom = Atoms(r)
    total = True  # any two objects of the pool are comparable
    if what == "constants":
        pool = [a_const(r) for _ in range(7)]
    elif what == "variables":
        pool = [a_var(r) for _ in range(7)]
    elif what == "terms":
        pool = [r.choice([a_var, a_const])(r) for _ in range(8)]
    elif what == "predicates":
        pool = [atom() for _ in range(7)]
    elif what == "functions":
        atom = Atoms(r, NumericFunction)
        pool = [atom() for _ in range(7)]
    elif what == "values":
        close = r.choice([
            [0, 1, 1.0, 2, 0.5, -1, 10 ** 20, 1e20, 3, 0.1], [0, 0.0, 1e-12, 2e-12, 5e-324, 1e-300, 3e-12], [0.1 + 0.2, 0.3, 0.30000000000000001, 0.1, 0.29999999999999993],
            [2 ** 53, 2 ** 53 + 1, 2 ** 53 + 2, float(2 ** 53), 2.0 ** 53 + 2, 2 ** 53 - 1], [10 ** 20, 10 ** 20 + 1, 1e20, 10 ** 20 - 1], [9, 10, 100, 9.5, 99, 1e1, 11, 2],
            [1, 1.5, 2, 1.25, 1.75, 1.000001, 1.0000000000000002],
        ])
        pool = [NumericValue(r.choice(close)) for _ in range(7)]
    elif what == "requirements":
        pool = [r.choice(list(Requirements)) for _ in range(7)]
    elif what == "quantified":
        cls = r.choice([[ForallCondition], [ExistsCondition], [ForallCondition, ExistsCondition]])
        atoms = [atom() for _ in range(r.choice([1, 2, 6]))]
        pool = [r.choice(cls)(r.choice(atoms), [a_var(r) for _ in range(r.choice([0, 1, 2]))]) for _ in range(6)]
    elif what == "derived":
        pool = [DerivedPredicate(atom(), atom()) for _ in range(6)]
    elif what == "effects":
        if r.random() < 0.5:
            pool = [When(atom(), atom()) for _ in range(6)]
        else:
            pool = [Forall(atom(), [a_var(r) for _ in range(r.choice([0, 1, 2]))]) for _ in range(6)]
    else:
        # formulas of all sorts: some pairs have no order
        total = False
        g = gen.Gen(r, **c01.knobs(r))
        d = g.domain()
        c = lang.canon_domain(d)
        b = Builder(r)
        fs = [bare(f) for a in c["actions"] for f in a[2:] if f is not None] + [("pred", n, tuple(("var", v, t) for v, t in vs)) for n, vs in c["preds"]]
        more = [vary.vary(f, r) for f in fs]
        fs += [renorm(f) for f in more if f is not None and consistent(f)]
        pool = [x for x in (quiet(lambda f=f: b.formula(f)) for f in r.sample(fs, min(8, len(fs)))) if x is not None]
    pool.append(r.choice(pool)) if pool else None
    ctx.count(what)
    ctx.seen(what, tuple(map(repr, pool)), tuple(str(sorted(getattr(x, "type_tags", ()))) for x in pool))
    ctx.sample(f"{what}: {list(map(str, pool))}"[:300])
    n = len(pool)
    lt = [[None] * n for _ in range(n)]
    for a in range(n):
        for b_ in range(n):
            x, y = pool[a], pool[b_]
            ctx.count("pairs")
            try:
                lt[a][b_] = x < y
            except TypeError:
                if total:
                    raise Violation(f"{what}: {x} and {y} cannot be compared")
                ctx.count("incomparable")
                continue
            if lt[a][b_] is not True and lt[a][b_] is not False:
                raise Violation(f"{what}: < gives {lt[a][b_]!r}")
            laws(what, x, y, lt[a][b_], total)
    for a in range(n):
        for b_ in range(n):
            if lt[a][b_] and lt[b_][a]:
                raise Violation(f"{what}: both {pool[a]!s} < {pool[b_]!s} and the converse", types=str([sorted(getattr(x, 'type_tags', ())) for x in pool]))
            for c_ in range(n):
                ctx.count("triples")
                if lt[a][b_] and lt[b_][c_] and lt[a][c_] is False:
                    raise Violation(f"{what}: {pool[a]} < {pool[b_]} < {pool[c_]}, yet not {pool[a]} < {pool[c_]}")
    if total:
        ref = sorted(pool)
        for _ in range(4):
            p = list(pool)
            r.shuffle(p)
            ctx.count("sorts")
            s = sorted(p)
            if s != ref or any(s[k + 1] < s[k] for k in range(n - 1)):
                raise Violation(f"{what}: sorting depends on the order it starts from: {list(map(str, s))} / {list(map(str, ref))}")
            if not (min(p) == ref[0] and max(p) == ref[-1]):
                raise Violation(f"{what}: smallest or largest is not at the end of the sorted list")
    foreign(what, pool[:2])


def laws(what, x, y, less, total):
    eq = x == y
    if eq and less:
        raise Violation(f"{what}: {x} < {y}, and they are equal")
    if total and not eq and not less and not (y < x):
        raise Violation(f"{what}: {x} and {y} are neither equal nor ordered")
    ops = {"<=": (x <= y, less or eq), ">": (y > x, less), ">=": (y >= x, less or eq)}
    for op, (got, want) in ops.items():
        if got is not want:
            raise Violation(f"{what}: {op} disagrees with < and == on {x} and {y}")


def foreign(what, pool):
    for x in pool:
        for f in (3, "a", None, (1,)):
            try:
                res = x < f
            except TypeError:
                continue
            raise Violation(f"{what}: {x} < {f!r} gives {res!r}")


__all__ = ["random", "name_type"]
