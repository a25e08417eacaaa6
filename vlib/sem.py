"""What formulas, expressions and effects mean in a (random) world: once for written trees, once for objects."""
import hashlib
import itertools
from fractions import Fraction

from .canon import ARITH, FUN_SYM
from .lang import flat_tl, num

from pddl.logic import functions as F
from pddl.logic.base import And, ExistsCondition, ForallCondition, Imply, Not, OneOf, Or
from pddl.logic.effects import Forall, When
from pddl.logic.predicates import EqualTo, Predicate
from pddl.logic.terms import Variable


class TooBig(Exception):
    pass


class World:
    """A universe of few things; everything else is drawn by hashing."""

    def __init__(self, seed, size=2, budget=4000):
        self.seed, self.size, self.left = seed, size, budget

    def draw(self, *key):
        b = hashlib.blake2b(repr((self.seed, key)).encode(), digest_size=8).digest()
        return int.from_bytes(b, "big")

    def tick(self):
        self.left -= 1
        if self.left < 0:
            raise TooBig()

    def const(self, name):
        return self.draw("const", name) % self.size

    def free(self, name):
        return self.draw("free", name) % self.size

    def holds(self, pred, args):
        return bool(self.draw("pred", pred, tuple(args)) & 1)

    def value(self, fun, args):
        v = self.draw("fun", fun, tuple(args))
        return Fraction(v % 7 - 2, 1 + (v >> 8) % 3)

    def members(self, types):
        everything = range(self.size)
        if not types or "object" in types:
            return list(everything)
        return [x for x in everything if any(self.draw("type", t, x) % 3 for t in types)]

    def assignments(self, binder):
        """binder: [(name, types)]: every way to bind the names."""
        binder = sorted(binder, key=lambda nt: nt[0])
        for values in itertools.product(*(self.members(t) for _, t in binder)):
            self.tick()
            yield dict(zip([n for n, _ in binder], values))


def arith(op, vs):
    if any(v is None for v in vs):
        return None
    if op == "+":
        return sum(vs, Fraction(0))
    if op == "*":
        out = Fraction(1)
        for v in vs:
            out *= v
        return out
    if op == "-":
        return -vs[0] if len(vs) == 1 else vs[0] - sum(vs[1:], Fraction(0))
    out = vs[0]
    for v in vs[1:]:
        if v == 0:
            return None
        out /= v
    return out


def compare(op, a, b):
    if a is None or b is None:
        return False
    return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "=": a == b}[op]


def merge(w, outcomes):
    """All the ways to take one outcome of each."""
    out = {frozenset()}
    for os in outcomes:
        out = {a | b for a in out for b in os}
        w.left -= len(out)
        w.tick()
        if len(out) > 200:
            raise TooBig()
    return frozenset(out)


# ---------------------------------------------------------------- written trees
class Written:
    @staticmethod
    def term(w, t, env):
        return env[t[1]] if t[0] == "v" and t[1] in env else w.free(t[1]) if t[0] == "v" else w.const(t[1])

    @classmethod
    def exp(cls, w, e, env):
        w.tick()
        if e[0] == "n":
            return num(e[1])
        if e[0] == "f":
            return w.value(e[1], [cls.term(w, t, env) for t in e[2]])
        return arith(e[1], [cls.exp(w, x, env) for x in e[2]])

    @classmethod
    def gd(cls, w, f, env):
        w.tick()
        k = f[0]
        if k == "empty":
            return True
        if k == "atom":
            return w.holds(f[1], [cls.term(w, t, env) for t in f[2]])
        if k == "=":
            return cls.term(w, f[1], env) == cls.term(w, f[2], env)
        if k == "and":
            return all([cls.gd(w, x, env) for x in f[1]])
        if k == "or":
            return any([cls.gd(w, x, env) for x in f[1]])
        if k == "not":
            return not cls.gd(w, f[1], env)
        if k == "imply":
            return (not cls.gd(w, f[1], env)) or cls.gd(w, f[2], env)
        if k in ("forall", "exists"):
            rs = [cls.gd(w, f[2], {**env, **a}) for a in w.assignments(flat_tl(f[1]))]
            return all(rs) if k == "forall" else any(rs)
        return compare(f[1], cls.exp(w, f[2], env), cls.exp(w, f[3], env))

    @classmethod
    def eff(cls, w, e, env):
        """Set of possible outcomes; an outcome is a set of elementary changes."""
        w.tick()
        k = e[0]
        if k == "empty":
            return frozenset([frozenset()])
        if k == "and":
            return merge(w, [cls.eff(w, x, env) for x in e[1]])
        if k == "forall":
            return merge(w, [cls.eff(w, e[2], {**env, **a}) for a in w.assignments(flat_tl(e[1]))])
        if k == "when":
            return cls.eff(w, e[2], env) if cls.gd(w, e[1], env) else frozenset([frozenset()])
        if k == "oneof":
            return frozenset().union(*[cls.eff(w, x, env) for x in e[1]])
        if k == "num":
            f = e[2]
            return one((e[1], f[1], tuple(cls.term(w, t, env) for t in f[2]), cls.exp(w, e[3], env)))
        if k == "not":
            return one(("del", cls.prop(w, e[1], env)))
        return one(("add", cls.prop(w, e, env)))

    @classmethod
    def prop(cls, w, f, env):
        if f[0] == "=":
            return ("=", cls.term(w, f[1], env), cls.term(w, f[2], env))
        return (f[1], tuple(cls.term(w, t, env) for t in f[2]))


def one(change):
    return frozenset([frozenset([change])])


# ---------------------------------------------------------------- objects
class Objects:
    @staticmethod
    def term(w, t, env):
        n = str(t.name)
        if isinstance(t, Variable):
            return env[n] if n in env else w.free(n)
        return w.const(n)

    @classmethod
    def exp(cls, w, e, env):
        w.tick()
        if isinstance(e, F.NumericValue):
            return Fraction(e.value)
        if isinstance(e, F.NumericFunction):
            return w.value(str(e.name), [cls.term(w, t, env) for t in e.terms])
        for c, sym in ARITH:
            if isinstance(e, c):
                return arith(sym, [cls.exp(w, x, env) for x in e.operands])
        raise AssertionError(f"not an expression: {e!r}")

    @classmethod
    def gd(cls, w, f, env):
        w.tick()
        if isinstance(f, Predicate):
            return w.holds(str(f.name), [cls.term(w, t, env) for t in f.terms])
        if isinstance(f, EqualTo):
            return cls.term(w, f.left, env) == cls.term(w, f.right, env)
        if isinstance(f, And):
            return all([cls.gd(w, x, env) for x in f.operands])
        if isinstance(f, Or):
            return any([cls.gd(w, x, env) for x in f.operands])
        if isinstance(f, Not):
            return not cls.gd(w, f.argument, env)
        if isinstance(f, Imply):
            a, b = f.operands
            return (not cls.gd(w, a, env)) or cls.gd(w, b, env)
        if isinstance(f, (ForallCondition, ExistsCondition)):
            rs = [cls.gd(w, f.condition, {**env, **a}) for a in w.assignments(binder(f))]
            return all(rs) if isinstance(f, ForallCondition) else any(rs)
        for c, sym in FUN_SYM:
            if isinstance(f, c) and len(f.operands) == 2:
                return compare(sym, *[cls.exp(w, x, env) for x in f.operands])
        raise AssertionError(f"not a condition: {f!r}")

    @classmethod
    def eff(cls, w, e, env):
        w.tick()
        if isinstance(e, And):
            return merge(w, [cls.eff(w, x, env) for x in e.operands])
        if isinstance(e, Forall):
            return merge(w, [cls.eff(w, e.effect, {**env, **a}) for a in w.assignments(binder(e))])
        if isinstance(e, When):
            return cls.eff(w, e.effect, env) if cls.gd(w, e.condition, env) else frozenset([frozenset()])
        if isinstance(e, OneOf):
            return frozenset().union(*[cls.eff(w, x, env) for x in e.operands])
        if isinstance(e, Not):
            return one(("del", cls.prop(w, e.argument, env)))
        if isinstance(e, (Predicate, EqualTo)):
            return one(("add", cls.prop(w, e, env)))
        for c, sym in FUN_SYM:
            if isinstance(e, c):
                f, v = e.operands
                return one((sym, str(f.name), tuple(cls.term(w, t, env) for t in f.terms), cls.exp(w, v, env)))
        raise AssertionError(f"not an effect: {e!r}")

    @classmethod
    def prop(cls, w, f, env):
        if isinstance(f, EqualTo):
            return ("=", cls.term(w, f.left, env), cls.term(w, f.right, env))
        return (str(f.name), tuple(cls.term(w, t, env) for t in f.terms))


def binder(f):
    return [(str(v.name), sorted(map(str, v.type_tags))) for v in f.variables]


# ---------------------------------------------------------------- written trees -> objects, directly
class Maker:
    """Composes objects bottom up, by constructors or operators, without any normalisation of its own."""

    def __init__(self, rng, ctypes=None):
        self.r = rng

    def term(self, t, env):
        from pddl.logic.terms import Constant

        return Variable(t[1], sorted(env.get(t[1], ()))) if t[0] == "v" else Constant(t[1])

    def exp(self, e, env):
        if e[0] == "n":
            v = num(e[1])
            return F.NumericValue(int(v) if "." not in e[1] else float(v))
        if e[0] == "f":
            return F.NumericFunction(e[1], *[self.term(t, env) for t in e[2]])
        return {"+": F.Plus, "-": F.Minus, "*": F.Times, "/": F.Divide}[e[1]](*[self.exp(x, env) for x in e[2]])

    def nary(self, cls, ops):
        """Several ways to write the same conjunction or disjunction."""
        x = self.r.random()
        if len(ops) >= 2 and x < 0.35:
            out = ops[0]
            for o in ops[1:]:
                out = (out & o) if cls is And else (out | o)
            return out
        if len(ops) >= 2 and x < 0.5:
            k = self.r.randrange(1, len(ops))
            return cls(cls(*ops[:k]), cls(*ops[k:]))
        if x < 0.6:
            return cls(cls(*ops))
        if x < 0.7 and ops:
            return cls(*ops, self.r.choice(ops))
        return cls(*ops)

    def gd(self, f, env):
        k = f[0]
        if k == "empty":
            return And()
        if k == "atom":
            return Predicate(f[1], *[self.term(t, env) for t in f[2]])
        if k == "=":
            return EqualTo(self.term(f[1], env), self.term(f[2], env))
        if k in ("and", "or"):
            return self.nary(And if k == "and" else Or, [self.gd(x, env) for x in f[1]])
        if k == "not":
            x = self.gd(f[1], env)
            return ~x if self.r.random() < 0.5 else Not(x)
        if k == "imply":
            a, b = self.gd(f[1], env), self.gd(f[2], env)
            return a >> b if self.r.random() < 0.5 else Imply(a, b)
        if k in ("forall", "exists"):
            tl = flat_tl(f[1])
            e2 = {**env, **dict(tl)}
            vs = [Variable(n, sorted(t)) for n, t in tl]
            return (ForallCondition if k == "forall" else ExistsCondition)(self.gd(f[2], e2), vs)
        from .build import CMP

        return CMP[f[1]](self.exp(f[2], env), self.exp(f[3], env))

    def eff(self, e, env):
        from .build import CMP

        k = e[0]
        if k == "empty":
            return And()
        if k == "and":
            ops = [self.eff(x, env) for x in e[1]]
            return And(*ops) if any(isinstance(x, (Forall, When)) for x in ops) else self.nary(And, ops)
        if k == "forall":
            tl = flat_tl(e[1])
            return Forall(self.eff(e[2], {**env, **dict(tl)}), [Variable(n, sorted(t)) for n, t in tl])
        if k == "when":
            return When(self.gd(e[1], env), self.eff(e[2], env))
        if k == "oneof":
            return OneOf(*[self.eff(x, env) for x in e[1]])
        if k == "num":
            return CMP[e[1]](self.exp(e[2], env), self.exp(e[3], env))
        if k == "not":
            return Not(self.gd(e[1], env))
        return self.gd(e, env)
