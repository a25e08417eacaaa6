"""C17: equal exactly when the content is equal; equal objects have equal hashes."""
from fractions import Fraction

from checks import c01
from vlib import vary
from vlib.h import Builder, PARSER, TOKENS, canon, full, gen, lang, Violation
from pddl.logic.base import ExistsCondition, ForallCondition, Not
from pddl.logic.effects import Forall, When
from pddl.logic.functions import GreaterThan, Metric, NumericFunction, NumericValue, Plus
from pddl.logic.predicates import EqualTo, Predicate
from pddl.logic.terms import Constant, Variable

ID = "C17"
TECH = "algebraic monitor: equality and hashing of pairs of objects against equality of their contents"
RULE = "one evaluation = one ordered pair of objects compared; distinct = distinct pairs of contents"
REQUIRE = ["against_own_parts", "attached", "equal_pairs", "unequal_near_pairs", "cross_kind_pairs", "foreign", "documents", "set_lookups", "exchanged"]
N = {"quick": 10000, "thorough": 160000}
FOREIGN = [None, 0, 1.5, "x", "(p)", (), [], {}, frozenset(), object(), NotImplemented, type]


class St:
    pass


def cases(tier):
    return N[tier]


def setup():
    st = St()
    st.p = {k: PARSER[k]() for k in PARSER}
    return st


def hash_of(x):
    try:
        return hash(x)
    except TypeError:
        return None


def pair(ctx, a, b, equal, what):
    """Everything equality promises about two objects."""
    ctx.count("equal_pairs" if equal else "unequal_near_pairs")
    for x, y in ((a, b), (b, a)):
        if (x == y) is not equal:
            raise Violation(f"{what}: == gives {x == y!r} although the contents are {'equal' if equal else 'different'}", a=repr(x)[:2000], b=repr(y)[:2000])
        if (x != y) is not (not equal):
            raise Violation(f"{what}: != disagrees with ==", a=repr(x)[:2000], b=repr(y)[:2000])
    ha, hb = hash_of(a), hash_of(b)
    if equal and ha != hb:
        raise Violation(f"{what}: equal objects, different hashes", a=repr(a)[:2000], b=repr(b)[:2000])
    if ha is not None and hb is not None:
        ctx.count("set_lookups")
        if (b in {a}) is not equal or len({a, b}) != (1 if equal else 2) or ({a: 1}.get(b) == 1) is not equal:
            raise Violation(f"{what}: membership in a set disagrees with equality", a=repr(a)[:2000], b=repr(b)[:2000])
        if hash(a) != ha or hash(b) != hb:
            raise Violation("a hash changed", a=repr(a)[:2000])


def bare(f):
    """Without the types of the constants."""
    if isinstance(f, tuple) and f:
        return f[:2] if f[0] == "const" else tuple(map(bare, f))
    return f


def renorm(f):
    """Canonical value, after a change, as the constructors normalise it."""
    if not isinstance(f, tuple) or not f:
        return f
    if f[0] in ("and", "or") and len(f) == 2:
        return lang.norm_nary(f[0], [renorm(x) for x in f[1]])
    return tuple(renorm(x) if isinstance(x, tuple) else x for x in f)


def consistent(f):
    """No two typings of one variable in one atom (refused by the library)."""
    for _, x in vary.nodes(f):
        if x[0] in ("pred", "eq"):
            seen = {}
            for t in x[2] if x[0] == "pred" else x[1:]:
                if t[0] == "var" and seen.setdefault(t[1], t[2]) != t[2]:
                    return False
    return True


def case(i, st, ctx):
    r = ctx.rng(i)
    g = gen.Gen(r, **({"bulk": True, "size": 1} if r.random() < 0.03 else c01.knobs(r)))
    d = g.domain()
    p = g.problem(d)
    cd, cp, cpl = lang.canon_domain(d), lang.canon_problem(p), tuple((n, tuple(a)) for n, a in g.plan(d))
    b1, b2 = Builder(r), Builder(r)
    # whole documents
    ctx.count("documents")
    doms = [b1.domain(cd), b2.domain(cd), st.p["domain"](" ".join(TOKENS["domain"](d)))]
    probs = [b1.problem(cp), b2.problem(cp), st.p["problem"](" ".join(TOKENS["problem"](p)))]
    plans = [b1.plan(cpl), b2.plan(cpl)]
    ctx.seen("doc", cd["name"], cp["name"], len(cd["actions"]), cpl)
    for group in (doms, probs, plans):
        for y in group[1:]:
            pair(ctx, group[0], y, True, "the same document made twice")
        pair(ctx, group[0], group[0], True, "itself")
    attached(r, ctx, b1, b2, cd, cp, doms)
    x = r.random()
    if x < 0.5:
        ch = change_domain(cd, r)
        if ch is not None:
            what, cd2 = ch
            other = quiet(lambda: b1.domain(cd2))
            if other is not None:
                ctx.count("exchanged", "exchanged" in what)
                pair(ctx, doms[0], other, canon.domain(other, False) == canon.domain(doms[0], False), f"domain with another {what}")
    else:
        ch = change_problem(cp, r)
        if ch is not None:
            what, cp2 = ch
            other = quiet(lambda: b1.problem(cp2))
            if other is not None:
                pair(ctx, probs[0], other, untyped(canon.problem(other)) == untyped(canon.problem(probs[0])), f"problem with another {what}")
    if cpl:
        k = r.randrange(len(cpl))
        n, a = cpl[k]
        cpl2 = r.choice([
            cpl[:k] + cpl[k + 1:], cpl[:k] + ((n + "1", a),) + cpl[k + 1:], cpl[:k] + ((n, a + ("zz",)),) + cpl[k + 1:], cpl + cpl[k:k + 1],
            tuple(reversed(cpl)), cpl[:k] + ((vary.swap(n), a),) + cpl[k + 1:], cpl[:k] + ((n, a[::-1]),) + cpl[k + 1:],
            cpl[:k] + ((n, tuple(map(vary.swap, a))),) + cpl[k + 1:], cpl[:k] + ((n, a[:-1]),) + cpl[k + 1:],
            cpl[:k] + ((n, cpl[0][1]),) + cpl[k + 1:] if r.random() < 0.3 else ((cpl[k][0], cpl[0][1]),) + cpl[1:k] + ((cpl[0][0], cpl[k][1]),) + cpl[k + 1:] if k else cpl,
        ])
        pair(ctx, plans[0], b1.plan(cpl2), cpl2 == cpl, "plan with another step")
    # parts, and their near copies
    parts = [f for a in cd["actions"] for f in a[2:] if f is not None] + [cp["goal"]] + [x[2] for x in cd["derived"]] + list(cp["init"])
    parts = [bare(f) for f in parts]
    r.shuffle(parts)
    objs = []
    for f in parts[:4]:
        a = b1.formula(f)
        objs.append((f, a))
        pair(ctx, a, b2.formula(f), True, "the same formula made twice")
        ctx.seen("same", f)
        for _ in range(3):
            f2 = vary.vary(f, r)
            if f2 is None or not consistent(f2):
                continue
            f2 = renorm(f2)
            y = b2.formula(f2)
            ctx.seen("near", f, f2)
            pair(ctx, a, y, f2 == renorm(f), "a formula and a near copy")
            ctx.sample(f"{a}  vs  {y}")
    for f, a in objs:
        for f2, y in objs:
            if (f == f2) != (a == y):
                raise Violation("two formulas compared wrongly", a=str(a)[:2000], b=str(y)[:2000])
    # actions, terms, metric
    for a in sorted(cd["actions"], key=str)[:2]:
        x, y = b1.action(a), b2.action(a)
        pair(ctx, x, y, True, "the same action made twice")
        z = list(a)
        k = r.randrange(4)
        z[k] = (
            r.choice([a[0] + "1", vary.swap(a[0])]) if k == 0 else a[1][:-1] if k == 1 else ("pred", "zz", ()) if a[k] is None else r.choice([None, ("not", a[k])]) if k == 2 else None
        )
        if tuple(z) != a:
            pair(ctx, x, b2.action(tuple(z)), False, "an action and a near copy")
    terms(r, ctx)
    if cp["metric"]:
        m = b1.metric(cp["metric"])
        pair(ctx, m, b2.metric(cp["metric"]), True, "the same metric made twice")
        pair(ctx, m, Metric(b1.exp(cp["metric"][1]), vary.FLIP[cp["metric"][0]]), False, "the opposite metric")
        pair(ctx, m, Metric(b1.exp(("op", "-", (cp["metric"][1],))), cp["metric"][0]), False, "the metric of another expression")
    # different kinds of things, and things from elsewhere
    zoo = [doms[0], probs[0], plans[0]] + [a for _, a in objs[:2]] + [b1.action(a) for a in list(cd["actions"])[:1]]
    zoo += [Variable("x"), Constant("x"), *list(doms[0].predicates)[:1], *list(doms[0].functions)[:1], *list(doms[0].derived_predicates)[:1]]
    n = r.choice([0, 1, 3, 0.5, 2.0, 10 ** 20])
    zoo += [NumericValue(n), Plus(NumericValue(n), NumericFunction("f")), GreaterThan(NumericFunction("f"), NumericValue(n)), NumericFunction("f", Variable("x"))]
    zoo += [Not(Predicate("p")), Predicate("p"), NumericFunction("p"), EqualTo(Variable("x"), Constant("x")), When(Predicate("p"), Predicate("p"))]
    zoo += [ForallCondition(Predicate("p"), [Variable("x")]), ExistsCondition(Predicate("p"), [Variable("x")]), Forall(Predicate("p"), [Variable("x")])]
    for j, a in enumerate(zoo):
        for f in own_parts(a):
            ctx.count("against_own_parts")
            if (a == f) is not False or (f == a) is not False or (a != f) is not True:
                raise Violation(f"a {type(a).__name__} equals {f!r}", a=repr(a)[:1000])
        for b in zoo[j + 1:]:
            if type(a) is not type(b):
                ctx.count("cross_kind_pairs")
                pair(ctx, a, b, False, "things of different kinds")
        for f in FOREIGN:
            ctx.count("foreign")
            if (a == f) is not False or (f == a) is not False or (a != f) is not True:
                raise Violation(f"equal to {f!r}", a=repr(a)[:1000])


def own_parts(a):
    """What is no object of the library, made of the object's own parts."""
    out = [str(a), repr(a), (a,), [a], type(a)]
    if hasattr(type(a), "__hash__") and type(a).__hash__:
        out.append(hash(a))
    for k in ("name", "value", "terms", "operands", "argument", "condition", "effect", "variables", "type_tags", "actions", "predicate"):
        v = getattr(a, k, None)
        if v is not None:
            out.append(v)
    return [f for f in out if f is not NotImplemented]


def quiet(f):
    from pddl.exceptions import PDDLError

    try:
        return f()
    except (PDDLError, ValueError):
        return None


def untyped(c):
    """The type of a constant takes no part in equality."""
    return {**c, "objects": frozenset(n for n, _ in c["objects"])}


def attached(r, ctx, b1, b2, cd, cp, doms):
    """Problems that belong to domains: to equal ones, or to ones that differ."""
    one = quiet(lambda: b1.problem(cp, domain=doms[0]))
    if one is None:
        return
    ctx.count("attached")
    pair(ctx, one, b2.problem(cp, domain=doms[1]), True, "the same problem of the same domain made twice")
    ch = change_domain(cd, r)
    if ch is None or ch[0] in ("name", "reqs"):
        return
    other = quiet(lambda: b2.problem(cp, domain=b2.domain(ch[1])))
    if other is not None:
        # (constants are identified by name)
        pair(ctx, one, other, canon.domain(other.domain, False) == canon.domain(doms[0], False), f"the same problem of a domain with another {ch[0]}")


def exchanged(items, r):
    """Two members of a set of tuples that exchange one of their parts."""
    fs = sorted(items, key=str)
    pairs = [(a, b, j) for n, a in enumerate(fs) for b in fs[n + 1:] for j in range(min(len(a), len(b))) if a[j] != b[j]]
    if not pairs:
        return None
    a, b, j = r.choice(pairs)
    return frozenset(items) - {a, b} | {a[:j] + (b[j],) + a[j + 1:], b[:j] + (a[j],) + b[j + 1:]}


def another(items, new, r):
    """The set with one member more, without one of them, or with one renamed."""
    fs = sorted(items, key=str)
    x = r.random()
    if x < 0.3 or not fs:
        return items | {new}
    old = r.choice(fs)
    if x < 0.55:
        return items - {old}
    if old[0] in ("pred", "not", "cmp"):
        return items - {old} | {new}
    y = (r.choice([old[0] + "1", vary.swap(old[0])]),) + old[1:]
    return items - {old} | {y if y not in items else new}


def change_domain(c, r):
    k = r.choice(["name", "reqs", "types", "constants", "preds", "funcs", "actions", "derived"])
    c = dict(c)
    if k in ("preds", "funcs", "actions", "derived") and r.random() < 0.5:
        y = exchanged(c[k], r)
        if y is None or len({x[0] for x in y}) < len(y) and k != "derived":
            return None
        c[k] = y
        return k + ", parts exchanged", c
    if k == "types" and r.random() < 0.4:
        y = exchanged(c[k].items(), r)
        if y is None or len({n for n, _ in y}) < len(c[k]):
            return None
        c[k] = dict(y)
        return k + ", parents exchanged", c
    if k == "name":
        c[k] = r.choice([c[k] + "1", vary.swap(c[k])])
    elif k == "reqs":
        c[k] = c[k] ^ {r.choice(["strips", "negative-preconditions", "conditional-effects", "derived-predicates"])}
    elif k == "types":
        if r.random() < 0.5 and c[k]:
            # the same types in another hierarchy
            t = r.choice(sorted(c[k]))
            c[k] = {**c[k], t: None if c[k][t] is not None else "zz"}
        else:
            c[k] = {**c[k], "zz": None}
    elif k == "constants":
        c[k] = another(c[k], ("zz", None), r)
    elif k == "preds":
        c[k] = another(c[k], ("zz", ()), r)
    elif k == "funcs":
        if not c[k]:
            return None
        n, vs, t = r.choice(sorted(c[k], key=str))
        c[k] = c[k] - {(n, vs, t)} | {(n, vs, "number" if t is None else None)}
    elif not c[k]:
        return None
    else:
        fs = sorted(c[k], key=str)
        r.shuffle(fs)
        x = fs[0]
        j = 2 if k == "derived" else r.choice([2, 3])
        y = vary.vary(x[j], r) if x[j] is not None else ("pred", "zz", ())
        if y is None or not consistent(y):
            return None
        c[k] = frozenset(fs[1:]) | {x[:j] + (renorm(y),) + x[j + 1:]}
    return k, c


def change_problem(c, r):
    k = r.choice(["name", "domain", "reqs", "objects", "init", "goal", "metric"])
    c = dict(c)
    if k == "init" and r.random() < 0.4:
        fs = tuple(sorted(c[k], key=str))
        y = vary.exchange(fs, r)
        if y is None or not consistent(y):
            return None
        c[k] = frozenset(map(renorm, y))
        return "init, parts exchanged", c
    if k in ("name", "domain"):
        c[k] = r.choice([c[k] + "1", vary.swap(c[k])])
    elif k == "reqs":
        c[k] = c[k] ^ {"strips"}
    elif k == "objects":
        c[k] = another(c[k], ("zz", None), r)
    elif k == "init":
        c[k] = another(c[k], ("pred", "zz", ()), r)
    elif k == "goal":
        y = vary.vary(c[k], r)
        if y is None or not consistent(y):
            return None
        c[k] = renorm(y)
    else:
        c[k] = ("minimize", ("num", Fraction(77))) if c[k] is None or r.random() < 0.5 else None
    return k, c


def terms(r, ctx):
    ts = []
    for _ in range(6):
        n = r.choice(["x", "y", "X", "x1"])
        if r.random() < 0.5:
            t = frozenset(r.sample(["t", "u", "v"], r.choice([0, 1, 1, 2])))
            order = sorted(t)
            r.shuffle(order)
            ts.append((("var", n, t), Variable(n, r.choice([list, tuple, set, frozenset])(order))))
        else:
            ts.append((("const", n), Constant(n, r.choice([None, "t", "u"]))))
    for ca, a in ts:
        for cb, b in ts:
            pair(ctx, a, b, ca == cb, "terms")


__all__ = ["full"]
