"""C01: a parsed domain means what the text says."""
from vlib.h import OBJ, PARSER, SURF, TOKENS, features, gen, lang, mutate, reader, same, text_of, valid_fixtures

ID = "C01"
KIND = "domain"
TECH = "reference-model monitor over generated executions"
RULE = (
    "one evaluation = one text parsed by the library and its observable content compared with the independent reading of "
    "that text; distinct = distinct sets of syntactic features of the text"
)
REQUIRE = ["generated", "fixtures", "mutants_accepted"]
N = {"quick": 12000, "thorough": 250000}


class St:
    pass


def cases(tier):
    return N[tier]


def setup():
    st = St()
    st.parser = PARSER[KIND]()
    st.fix = valid_fixtures(KIND)
    st.n = 0
    return st


def make(g, kind):
    d = g.domain()
    if kind == "domain":
        if g.rng.random() < 0.5:
            g.problem(d)  # may declare more predicates
        return d
    if kind == "problem":
        return g.problem(d)
    g.problem(d)
    return g.plan(d if g.rng.random() < 0.6 else None)


def knobs(r):
    x = r.random()
    if x < 0.12:
        return {"wide": 0.25, "size": 3}
    if x < 0.3:
        return {"pool": ["x", "y", "z", "a", "b", "X", "x1", "a-b"], "size": 2}
    if x < 0.33:
        return {"wide": 0.9, "size": 1}
    if x < 0.4:
        # names that differ in letter case only
        return {"pool": ["aa", "AA", "aA", "Aa", "b-b", "B-b", "b-B", "X", "x"], "size": 2, "wide": 0.3}
    if x > 0.985:
        # dozens of everything
        return {"bulk": True, "size": 0, "wide": 0.1}
    return {}


def case(i, st, ctx):
    r = ctx.rng(i)
    st.n += 1
    if i < len(st.fix):
        f, want = st.fix[i]
        text = text_of(f)
        ctx.count("fixtures")
        ctx.peak("text_length", len(text))
        check(st, ctx, text, want)
        if KIND == "problem" and len(text) > 20000:
            return
        # the same content, mutated where the reference reader still accepts it
        toks = [t for _, t in reader.tokenize(text)]
        mutants(st, ctx, r, toks, 2)
        return
    g = gen.Gen(r, **knobs(r))
    ast = make(g, KIND)
    toks = TOKENS[KIND](ast)
    text = lang.layout(toks, r)
    ctx.count("generated")
    ctx.peak("tokens", len(toks))
    check(st, ctx, text, SURF[KIND](ast))
    mutants(st, ctx, r, toks, 2)


def mutants(st, ctx, r, toks, k):
    names = [j for j, t in enumerate(toks) if t[0].isalnum()]
    for _ in range(k):
        if r.random() < 0.6 and len(names) > 1:
            m = list(toks)
            m[r.choice(names)] = m[r.choice(names)]  # another word of the text
        else:
            m = mutate(toks, r)
        t = " ".join(m)
        try:
            want = SURF[KIND](reader.read(KIND, t))
        except (lang.Reject, lang.Unsure):
            ctx.count("mutants_out_of_scope")
            continue
        ctx.count("mutants_accepted")
        check(st, ctx, t, want)


def check(st, ctx, text, want):
    r = ctx.rng("p", st.n)
    parser = PARSER[KIND]() if r.random() < 0.02 else st.parser
    got = OBJ[KIND](parser(text))
    ctx.seen(features(want))
    ctx.sample(text[:700])
    same(want, got, "parsed content differs from the text", text=text[:6000])
