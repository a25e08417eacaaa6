"""C19: what is printed depends on the content alone."""
from checks import c01
from vlib.h import Builder, KINDS, PARSER, SURF, TOKENS, gen, lang, mutate, parse, text_of, valid_fixtures, Violation
from vlib.peer import Peer

ID = "C19"
TECH = "differential monitor across interpreters with different hash seeds and across orders of construction"
RULE = (
    "one evaluation = one document printed twice (another interpreter, another order of construction, another order of the text) and "
    "compared; distinct = distinct documents"
)
REQUIRE = ["twins", "overloaded", "other_interpreter", "other_construction", "other_order_in_text", "printed_twice", "errors_compared", "fixtures"]
N = {"quick": 7000, "thorough": 120000}
BATCH = 40


class St:
    pass


def cases(tier):
    return N[tier]


def setup():
    st = St()
    st.p = {k: PARSER[k]() for k in KINDS}
    st.peers = [Peer(1), Peer(987654321)]
    st.docs, st.specs, st.which = [], [], 0
    st.fix = [(k, f) for k in KINDS for f, _ in valid_fixtures(k)]
    return st


def teardown(st, ctx):
    flush(st, ctx, True)
    for p in st.peers:
        p.close()


def case(i, st, ctx):
    r = ctx.rng(i)
    if i < len(st.fix):
        kind, f = st.fix[i]
        text = text_of(f)
        ctx.count("fixtures")
        ctx.seen("fixture", f)
        st.docs.append((kind, text, ("ok", str(st.p[kind](text)))))
        flush(st, ctx)
        return
    g = gen.Gen(r, **c01.knobs(r))
    d = g.domain()
    p = g.problem(d)
    for kind, ast in (("domain", d), ("problem", p)):
        toks = TOKENS[kind](ast)
        text = " ".join(toks)
        ctx.seen(kind, text)
        ctx.sample(text[:400])
        obj = st.p[kind](text)
        printed = str(obj)
        if str(obj) != printed or str(st.p[kind](text)) != printed:
            raise Violation("printing twice prints two things", text=text[:4000])
        ctx.count("printed_twice")
        st.docs.append((kind, text, ("ok", printed)))
        if r.random() < 0.3:
            m = " ".join(mutate(toks, r))
            got, x = parse(st.p[kind], m)
            ctx.count("errors_compared", got != "ok")
            st.docs.append((kind, m, ("ok", str(x)) if got == "ok" else ("err", type(x).__name__)))
        # orders of construction, here and elsewhere
        c = SURF[kind](ast)
        if kind == "domain" and c["preds"] and r.random() < 0.3:
            # the library allows a name with several arities or types
            ctx.count("overloaded")
            c = dict(c, preds=c["preds"] | {(n, vs[: r.randrange(len(vs) + 1)]) for n, vs in sorted(c["preds"], key=str)[:3]})
        if r.random() < 0.3:
            ctx.count("twins")
            c = twins(kind, c, r)
        a = str(getattr(Builder(r, numbers=0), kind)(c))
        b = str(getattr(Builder(r, numbers=0), kind)(c))
        ctx.count("other_construction")
        if a != b:
            raise Violation("the same content given in two orders prints two things", first=a[:4000], second=b[:4000])
        st.specs.append((kind, c, r.random(), ("ok", a)))
        # orders in the text
        other = shuffled(kind, ast, r)
        t2 = " ".join(TOKENS[kind](other))
        ctx.count("other_order_in_text")
        if SURF[kind](other) == SURF[kind](ast) and str(st.p[kind](t2)) != printed:
            raise Violation("the same content written in two orders prints two things", text=text[:4000], other=t2[:4000])
    flush(st, ctx)


def twins(kind, c, r):
    """Things with the same name, and the same head, next to each other."""
    if kind == "problem":
        more = {("cmp", "=", (f[2][0], ("num", lang.num(str(k))))) for f in c["init"] if f[0] == "cmp" for k in range(r.choice([0, 1, 2]))}
        return dict(c, init=c["init"] | more)
    out = dict(c)
    q = lambda k: ("pred", f"q{k}", ())  # noqa: E731
    for n, vs, pre, eff in r.sample(sorted(c["actions"], key=str), min(2, len(c["actions"]))):
        for k in range(r.choice([1, 3])):
            new = r.choice([(n, vs, q(k), eff), (n, vs, pre, q(k)), (n, vs, None, eff), (n, vs[: len(vs) // 2], q(k), q(k))])
            out["actions"] |= {new}
    for head, _ in ((x[:-1], x[-1]) for x in sorted(c["derived"], key=str)[:2]):
        out["derived"] |= {(*head, q(k)) for k in range(3)}
    for n, vs in sorted(c["preds"], key=str)[:2]:
        if vs:
            out["preds"] |= {(n, ((vs[0][0], frozenset(ts)), *vs[1:])) for ts in ([], ["object"] if "typing" in lang.extend(c["reqs"]) else [])}
    return out


def shuffled(kind, ast, r):
    a = dict(ast)
    if a["reqs"]:
        a["reqs"] = r.sample(a["reqs"], len(a["reqs"]))
    if kind == "domain":
        a["structs"] = r.sample(a["structs"], len(a["structs"]))
        if a["preds"]:
            a["preds"] = r.sample(a["preds"], len(a["preds"]))
        a["constants"] = shuffle_groups(a["constants"], r)
        a["types"] = shuffle_groups(a["types"], r)
        a["structs"] = [shuffle_binders(s, r) for s in a["structs"]]
    else:
        spelt = {}
        for el in a["init"]:
            if el[0] not in ("atom", "not"):
                spelt.setdefault(lang.num(el[-1]), set()).add(el[-1])
        if all(len(ways) == 1 for ways in spelt.values()):  # of equal facts the first one stays, as it is spelt
            a["init"] = r.sample(a["init"], len(a["init"]))
        a["objects"] = shuffle_groups(a["objects"], r)
        a["goal"] = shuffle_binders(a["goal"], r)
    return a


def shuffle_groups(gs, r):
    """The groups of a typed list (the untyped one stays last), and the names inside."""
    if not gs:
        return gs
    typed = [(r.sample(ns, len(ns)), t) for ns, t in gs if t is not None]
    r.shuffle(typed)
    return typed + [(r.sample(ns, len(ns)), t) for ns, t in gs if t is None]


def shuffle_binders(x, r):
    if isinstance(x, tuple) and x and x[0] in ("forall", "exists"):
        return (x[0], shuffle_groups(x[1], r), shuffle_binders(x[2], r))
    if isinstance(x, tuple):
        return tuple(shuffle_binders(y, r) for y in x)
    if isinstance(x, list):
        return [shuffle_binders(y, r) for y in x]
    return x


def flush(st, ctx, force=False):
    if not force and len(st.docs) < BATCH:
        return
    st.which += 1
    peer = st.peers[st.which % len(st.peers)]
    docs, st.docs = st.docs, []
    specs, st.specs = st.specs, []
    for (kind, text, want), got in zip(docs, peer.ask("show", [x[:2] for x in docs])):
        ctx.count("other_interpreter")
        if got != want:
            raise Violation(f"another interpreter prints another {kind}", text=text[:3000], here=str(want)[:3000], there=str(got)[:3000])
    for (kind, c, _, want), got in zip(specs, peer.ask("built", [x[:3] for x in specs])):
        ctx.count("other_interpreter")
        if got != want:
            raise Violation(f"another interpreter prints another {kind} made of the same parts", here=str(want)[:3000], there=str(got)[:3000])


__all__ = ["lang"]
