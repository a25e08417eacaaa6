"""Near copies of canonical values: one small change somewhere."""
from fractions import Fraction

from .lang import RESERVED

FLIP = {
    "and": "or", "or": "and", "forall": "exists", "exists": "forall", "+": "*", "*": "+", "-": "/", "/": "-", "<": "<=", "<=": "<",
    ">": ">=", ">=": ">", "=": "<", "assign": "increase", "increase": "decrease", "decrease": "increase", "scale-up": "scale-down",
    "scale-down": "scale-up", "minimize": "maximize", "maximize": "minimize",
}


def swap(n):
    n = n.swapcase()
    return n + "2" if n in RESERVED else n


def nodes(f, path=()):
    """Every node of a canonical formula, with the way to it."""
    if isinstance(f, tuple) and f:
        if isinstance(f[0], str):
            yield path, f
        for i, x in enumerate(f):
            if isinstance(x, tuple):
                yield from nodes(x, path + (i,))


def put(f, path, new):
    if not path:
        return new
    i = path[0]
    return f[:i] + (put(f[i], path[1:], new),) + f[i + 1:]


def change(x, r):
    """Another node of the same sort, or None."""
    k = x[0]
    if k == "var":
        y = r.random()
        if y < 0.3:
            return ("var", x[1] + "1", x[2])
        if y < 0.5:
            return ("const", x[1])
        if y < 0.7:
            return ("var", x[1], x[2] | {"zz"})
        if x[2]:
            return ("var", x[1], x[2] - {sorted(x[2])[0]})
        return ("var", swap(x[1]), x[2])
    if k == "const":
        return r.choice([("const", x[1] + "1"), ("const", swap(x[1])), ("var", x[1], frozenset())])
    if k in ("pred", "fun"):
        y = r.random()
        if y < 0.4:
            return (k, x[1] + "1", x[2])
        if y < 0.6 and x[2]:
            return (k, x[1], x[2][:-1])
        if y < 0.8:
            return (k, x[1], x[2] + (("const", "zz"),))
        return (k, x[1], tuple(reversed(x[2])))
    if k == "eq":
        return ("eq", x[2], x[1])
    if k in ("and", "or"):
        y = r.random()
        ops = list(x[1])
        if y < 0.3:
            return (FLIP[k], tuple(ops))
        if y < 0.6 and ops:
            del ops[r.randrange(len(ops))]
        elif y < 0.8 and len(ops) > 1:
            ops.reverse()
        else:
            ops.append(("pred", "zz", ()))
        return (k, tuple(ops))
    if k == "not":
        return r.choice([x[1], ("not", x)])
    if k in ("imply", "when"):
        return r.choice([(k, x[2], x[1]), ("imply", x[1], x[2]) if k == "when" else ("not", x)])
    if k == "oneof":
        ops = list(x[1])
        y = r.random()
        if y < 0.4:
            ops.reverse()
        elif y < 0.7:
            ops.append(ops[0])
        else:
            return ("and", x[1])
        return (k, tuple(ops))
    if k in ("forall", "exists", "eforall"):
        y = r.random()
        if y < 0.3 and k != "eforall":
            return (FLIP[k], x[1], x[2])
        if y < 0.6:
            return (k, x[1] | {("zz", frozenset())}, x[2])
        if x[1]:
            n, t = sorted(x[1], key=str)[0]
            rest = x[1] - {(n, t)}
            return (k, r.choice([rest, rest | {(n, t ^ {"zz"})}]), x[2])
        return (k, x[1], ("not", x[2]) if k != "eforall" else ("and", (("pred", "zz", ()), x[2])))
    if k in ("cmp", "op"):
        y = r.random()
        if y < 0.4:
            return (k, FLIP[x[1]], x[2])
        if y < 0.7:
            return (k, x[1], tuple(reversed(x[2])))
        return (k, x[1], x[2] + (("num", Fraction(3)),))
    if k == "num":
        return ("num", x[1] + 1)
    return None


SORTS = {"var": 1, "const": 1, "num": 2, "fun": 2, "op": 2, "pred": 3, "eq": 3, "and": 3, "or": 3, "not": 3, "imply": 3, "forall": 3, "exists": 3}


def exchange(f, r):
    """Two different nodes of one sort, neither inside the other, exchanged; or None."""
    all_ = [(p, x) for p, x in nodes(f) if x[0] in SORTS and p and isinstance(p[-1], int)]
    r.shuffle(all_)
    for p, x in all_[:3]:
        for q, y in all_:
            if SORTS[x[0]] == SORTS[y[0]] and x != y and p[: len(q)] != q and q[: len(p)] != p:
                return put(put(f, p, y), q, x)
    return None


def vary(f, r):
    """One node of the formula changed (possibly to something equal after normalisation)."""
    if r.random() < 0.25:
        y = exchange(f, r)
        if y is not None and y != f:
            return y
    all_ = list(nodes(f))
    for _ in range(10):
        path, x = r.choice(all_)
        y = change(x, r)
        if y is not None and y != x:
            return put(f, path, y)
    return None
