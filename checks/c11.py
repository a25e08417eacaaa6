"""C11: which declaration each occurrence of a variable or constant refers to."""
from vlib.h import OBJ, PARSER, SURF, TOKENS, gen, lang, same, Violation

ID = "C11"
TECH = "reference-model monitor over nested scopes with few names"
RULE = "one evaluation = one text whose every occurrence of a term is compared with the binder it must refer to; distinct = distinct texts"
REQUIRE = ["shadowed_binders", "occurrences", "goals"]
N = {"quick": 24000, "thorough": 250000}


class St:
    pass


class Scoped(gen.Gen):
    """Nested binders over few names."""

    def gd(self, scope, depth):
        if depth > 0 and self.rng.random() < 0.45:
            k = self.rng.choice(["forall", "exists"])
            self.used.add("universal-preconditions" if k == "forall" else "existential-preconditions")
            return (k, *self.quant(scope, lambda s: self.gd(s, depth - 1)))
        return super().gd(scope, depth)

    def c_eff(self, scope, depth):
        if depth > 0 and self.rng.random() < 0.4:
            return ("forall", *self.quant(scope, lambda s: self.eff(s, depth - 1)))
        return super().c_eff(scope, depth)


def cases(tier):
    return N[tier]


def setup():
    st = St()
    st.p = {k: PARSER[k]() for k in ("domain", "problem")}
    return st


def case(i, st, ctx):
    r = ctx.rng(i)
    pool = r.choice([["x", "y"], ["x", "y", "z"], ["a", "b", "c", "d"], ["x", "X", "x-", "x_"]])
    extra = [f"{p}{k}" for p in pool for k in range(3)]
    g = Scoped(r, typing=r.random() < 0.85, size=2, pool=pool + (extra if r.random() < 0.5 else []))
    d = g.domain()
    p = g.problem(d) if i % 3 == 0 else None
    ctx.count("shadowed_binders", shadows(d))
    for kind, ast in (("domain", d), ("problem", p)):
        if ast is None:
            continue
        if kind == "problem":
            ctx.count("goals")
        text = lang.plain(TOKENS[kind](ast))
        want = SURF[kind](ast)
        ctx.count("occurrences", text.count("?"))
        ctx.seen(text)
        ctx.sample(text[:500])
        obj = st.p[kind](text)
        same(want, OBJ[kind](obj), "an occurrence does not refer to its binder", text=text[:6000])


def shadows(d):
    n = 0

    def walk(x, scope):
        nonlocal n
        if isinstance(x, tuple) and x and x[0] in ("forall", "exists"):
            mine = {v for v, _ in lang.flat_tl(x[1])}
            n += len(mine & scope)
            walk(x[2], scope | mine)
        elif isinstance(x, (tuple, list)):
            for y in x:
                walk(y, scope)

    for s in d["structs"]:
        sc = {v for v, _ in lang.flat_tl(s[2])}
        for b in s[3:]:
            walk(b, sc)
    return n


__all__ = ["Violation"]
