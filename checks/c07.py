"""C07: layout and comments mean nothing."""
from checks import c01
from vlib.h import KINDS, OBJ, PARSER, TOKENS, features, gen, lang, mutate, parse, reader, same, Violation

ID = "C07"
TECH = "metamorphic monitor: the same tokens laid out many ways"
RULE = "one evaluation = one re-layout of a text parsed and compared with its plain layout; distinct = distinct (language, layout mode, features)"
REQUIRE = ["relayouts", "ill_formed"]
N = {"quick": 5000, "thorough": 100000}
MODES = ["dense", "lines", "wild", "comments", "wild", "comments"]


class St:
    pass


def cases(tier):
    return N[tier]


def setup():
    st = St()
    st.p = {k: PARSER[k]() for k in KINDS}
    return st


def strict(toks):
    """Tokens whose separation may not be dropped are kept apart by `layout`."""
    return toks


def case(i, st, ctx):
    r = ctx.rng(i)
    g = gen.Gen(r, **c01.knobs(r))
    d = g.domain()
    p = g.problem(d)
    pl = g.plan(d if i % 2 else None)
    for kind, ast in (("domain", d), ("problem", p), ("plan", pl)):
        toks = TOKENS[kind](ast)
        base = st.p[kind](lang.plain(toks))
        cb, sb = OBJ[kind](base), str(base)
        for mode in r.sample(MODES, 3):
            text = weird(r, lang.layout(toks, r, mode))
            ctx.count("relayouts")
            x = st.p[kind](text)
            ctx.seen(kind, mode, features(cb)[:12])
            ctx.sample(text[:500])
            same(cb, OBJ[kind](x), f"the layout ({mode}) changes the content", text=text[:6000])
            if not (x == base and base == x) or str(x) != sb:
                raise Violation(f"the layout ({mode}) changes equality or printing", text=text[:6000])
        # ill-formed texts stay ill-formed
        m = mutate(toks, r)
        try:
            reader.read(kind, " ".join(m))
            continue
        except lang.Unsure:
            continue
        except lang.Reject:
            pass
        if any(not t for t in m) or any(c in t for t in m for c in ";") or not all(sep_ok(t) for t in m):
            continue
        text = lang.layout(m, r, r.choice(["lines", "comments"]))
        got, x = parse(st.p[kind], text)
        ctx.count("ill_formed")
        if got == "ok":
            raise Violation(f"an ill-formed {kind} becomes acceptable with another layout", text=text[:6000], plain=" ".join(m)[:3000])


def sep_ok(t):
    return t in ("(", ")") or t[0].isalnum() or t[0] in ":"


def weird(r, text):
    x = r.random()
    if x < 0.05:
        return text.replace("\n", "\r\n")
    if x < 0.08:
        return "\n" * 300 + text + " " * 5000
    if x < 0.1:
        return "; " + "x" * 20000 + "\n" + text
    return text
