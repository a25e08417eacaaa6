"""C06: exactly the well-formed texts are accepted; the others get an orderly error."""
import re

from checks import c01
from vlib.h import KINDS, OBJ, ORDERLY, PARSER, SURF, TOKENS, fixture_files, gen, lang, mutate, parse, reader, same, text_of, Violation

ID = "C06"
TECH = "differential verdict monitor against an independent reader, over mutated texts; exception-family and watchdog monitor"
RULE = (
    "one evaluation = one text given to the library, its verdict (accepted / kind of error) compared with the independent "
    "reader's; distinct = distinct (language, verdict, reason) observed"
)
REQUIRE = ["accepted", "rejected", "char_mutants", "truncations", "repeated"]
N = {"quick": 9000, "thorough": 200000}
CHARS = "()?-=<>+*/;:.,\"'\\|#@!$%^&[]{}_~` \t\n\r09azAZ\u00e9\u4e2d\x00\ufeff"


class St:
    pass


def cases(tier):
    return N[tier]


def setup():
    st = St()
    st.p = {k: PARSER[k]() for k in KINDS}
    st.fix = [f for f in fixture_files()]
    st.small = {}
    return st


def case(i, st, ctx):
    r = ctx.rng(i)
    if i % 10 == 0 and st.fix:
        kind, f = r.choice(st.fix)
        text = text_of(f)
        if len(text) > 12000:
            text = text[:6000]
        try:
            toks = [t for _, t in reader.tokenize(text)]
        except (lang.Reject, lang.Unsure):
            return
        asts = [(kind, toks, None)]
    else:
        g = gen.Gen(r, **c01.knobs(r))
        d = g.domain()
        p = g.problem(d)
        pl = g.plan(d if i % 2 else None)
        asts = [("domain", lang.tokens_domain(d), d), ("problem", lang.tokens_problem(p), p), ("plan", lang.tokens_plan(pl), pl)]
    for kind, toks, ast in asts:
        if ast is not None:
            judge(st, ctx, kind, " ".join(toks), must=True)
        names = [j for j, t in enumerate(toks) if t[0].isalpha()]
        for m in range(4):
            x = r.random()
            if x < 0.1 and toks:
                mm = repeated(toks, r)
                ctx.count("repeated")
                t = " ".join(mm)
            elif x < 0.45 or not toks:
                t = " ".join(mutate(toks, r))
            elif x < 0.7 and len(names) > 1:
                mm = list(toks)
                mm[r.choice(names)] = mm[r.choice(names)] if r.random() < 0.7 else r.choice(sorted(lang.RESERVED))
                t = " ".join(mm)
            elif x < 0.8:
                ctx.count("truncations")
                text = lang.layout(toks, r)
                t = text[: r.randrange(len(text) + 1)]
            else:
                ctx.count("char_mutants")
                text = lang.layout(toks, r)
                j = r.randrange(len(text) + 1)
                y = r.random()
                c = r.choice(CHARS)
                t = text[:j] + (c + text[j:] if y < 0.5 else c + text[j + 1:] if y < 0.8 else text[j + 1:])
            glued = len(t) != 0 and x >= 0.7
            other = kind
            if r.random() < 0.02:
                other = r.choice(KINDS)  # a text of another language
            judge(st, ctx, other, t, known=set(toks) if glued else None)


def repeated(toks, r):
    """A variable or name stands once more in its list: with its type, with another one, without."""
    toks = list(toks)
    sections = (":types", ":constants", ":objects")
    some = [i for i, t in enumerate(toks) if t[0] == "?" or t[0].isalpha() and r.random() < 0.3]
    r.shuffle(some)
    for i in some[:20]:
        a, depth = i, 0
        while a > 0 and depth < 1:
            a -= 1
            depth += {"(": 1, ")": -1}.get(toks[a], 0)
        if toks[i][0] != "?" and toks[a + 1] not in sections:
            continue
        b, depth = i, 0
        while b < len(toks) - 1 and depth < 1:
            b += 1
            depth += {")": 1, "(": -1}.get(toks[b], 0)
        typed = [j for j in range(i, b) if toks[j] == "-"]
        ty = []
        if typed:
            j = typed[0] + 1
            k = toks.index(")", j) + 1 if toks[j] == "(" else j + 1
            ty = ["-", *toks[j:k]]
        y = r.random()
        if y < 0.3:
            return toks[:i] + [toks[i]] + toks[i:]
        if y < 0.6:
            return toks[:b] + [toks[i], *ty] + toks[b:]
        if y < 0.8:
            return toks[:a + 1] + ([toks[i], *ty] if toks[i][0] == "?" else []) + toks[a + 1:]
        other = r.choice([[], ["-", "object"], ["-", r.choice([t for t in toks if t[0].isalpha()])], ["-", "(", "either", *[t for t in ty if t[0].isalpha() and t != "either"], "object", ")"]])
        return toks[:b] + [toks[i], *other] + toks[b:]
    return toks


def stuck(text, known):
    """Does the text glue a keyword to another word? Whether that is two tokens is left open."""
    toks = re.split(r"[\s()?;]+", text)
    return any(t not in known and t.startswith(tuple(WORDS)) for t in toks)


WORDS = sorted(lang.RESERVED - {"total-cost"}) + ["number"] + [":" + w for w in (
    "domain requirements types constants predicates functions action parameters precondition effect derived objects init goal metric"
).split()] + [":" + r for r in lang.REQS]


def judge(st, ctx, kind, text, must=False, known=None):
    reason = ""
    tree = None
    try:
        tree = reader.read(kind, text)
        want = "accept"
    except lang.Reject as e:
        want, reason = "reject", str(e)
    except lang.Unsure as e:
        want, reason = "unsure", str(e)
    if must and want != "accept":
        raise AssertionError(f"harness: generated text not accepted by the reference reader: {want} {reason} {text[:3000]}")
    got, x = parse(st.p[kind], text)
    ctx.seen(kind, want, got, type(x).__name__ if got == "err" else "", "".join(c for c in reason[:25] if c.isalpha() or c == " "))
    if got == "ok":
        ctx.count("accepted")
        if want == "reject" and known is not None and stuck(text, known):
            ctx.count("glued_keywords_set_aside")
        elif want == "reject":
            raise Violation(f"ill-formed {kind} accepted ({reason})", text=text[:6000])
        if not type(x).__name__.lower() == kind:
            raise Violation(f"the {kind} parser returned a {type(x).__name__}", text=text[:6000])
        if want == "accept":
            same(SURF[kind](tree), OBJ[kind](x), "accepted with another content", text=text[:6000])
    else:
        ctx.count("rejected")
        ctx.count("rejected_" + type(x).__name__)
        if want == "accept":
            raise Violation(f"well-formed {kind} rejected: {type(x).__name__}: {str(x)[:300]}", text=text[:6000])
        if not isinstance(x, ORDERLY) or type(x).__name__ == "VisitError":
            raise Violation(f"{kind} rejected with {type(x).__name__} ({str(x)[:200]}), not a parsing or validation error", text=text[:6000])
        if not str(x).strip():
            raise Violation(f"{type(x).__name__} without a message", text=text[:6000])
