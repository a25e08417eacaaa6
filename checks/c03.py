"""C03: plans: what is parsed is what is written, and printing keeps it."""
from vlib.h import Builder, PARSER, canon, valid_fixtures, gen, lang, mutate, reader, same, text_of, Violation

ID = "C03"
TECH = "reference-model monitor over generated executions"
RULE = "one evaluation = one plan text parsed, compared with its independent reading, printed, read again; distinct = distinct plans"
REQUIRE = ["generated", "fixtures", "programmatic", "mutants_accepted"]
N = {"quick": 10000, "thorough": 200000}


class St:
    pass


def cases(tier):
    return N[tier]


def setup():
    st = St()
    st.parser = PARSER["plan"]()
    st.fix = valid_fixtures("plan")
    return st


def long_plan(r, g):
    names = g.names(r.randrange(1, 6))
    objs = g.names(r.randrange(1, 9))
    out = []
    for _ in range(r.choice([1, 3, 10, 60, 400] if r.random() < 0.97 else [1100, 2500])):
        out.append((r.choice(names), [r.choice(objs) for _ in range(r.choice([0, 0, 1, 1, 2, 3, 4, 7, 15]))]))
    return out


def case(i, st, ctx):
    r = ctx.rng(i)
    if i < len(st.fix):
        f, want = st.fix[i]
        text = text_of(f)
        ctx.count("fixtures")
        toks = [t for _, t in reader.tokenize(text)]
        check(st, ctx, text, want)
    else:
        g = gen.Gen(r)
        if r.random() < 0.4:
            d = g.domain()
            g.problem(d)
            pl = g.plan(d)
        elif r.random() < 0.5:
            pl = long_plan(r, g)
        else:
            pl = g.plan()
        toks = lang.tokens_plan(pl)
        ctx.count("generated")
        check(st, ctx, lang.layout(toks, r), lang.canon_plan(pl))
        want = lang.canon_plan(pl)
        obj = Builder(r).plan(want)
        ctx.count("programmatic")
        same(want, canon.plan(obj), "the steps of a plan differ from the ones given")
        printed(st, ctx, obj, want)
        back = st.parser(str(obj))
        if back != obj or not back == obj:
            raise Violation("a built plan, printed and parsed, is not equal to it", text=str(obj)[:3000])
    for _ in range(2):
        m = mutate(toks, r) if toks else ["("]
        t = " ".join(m)
        try:
            want = lang.canon_plan(reader.read("plan", t))
        except (lang.Reject, lang.Unsure):
            continue
        ctx.count("mutants_accepted")
        check(st, ctx, t, want)


def printed(st, ctx, obj, want):
    s1 = str(obj)
    same(want, lang.canon_plan(reader.read("plan", s1)), "the printed plan, read independently, differs", text=s1[:3000])
    again = st.parser(s1)
    same(want, canon.plan(again), "the printed plan, parsed again, differs", text=s1[:3000])
    if str(again) != s1:
        raise Violation("printing a plan is not stable", text=s1[:3000])
    return again


def check(st, ctx, text, want):
    obj = st.parser(text)
    ctx.seen(want)
    ctx.sample(text[:300])
    ctx.peak("steps", len(want))
    same(want, canon.plan(obj), "parsed plan differs from the text", text=text[:3000])
    again = printed(st, ctx, obj, want)
    if not (again == obj) or again != obj:
        raise Violation("plan printed and parsed again is not equal", text=text[:3000])
