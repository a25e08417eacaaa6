"""C08: the declared requirements decide which features a domain may use."""
import itertools

from checks import c01
from vlib.h import Builder, ORDERLY, PARSER, canon, gen, lang, parse, reader, same, Violation
from pddl.core import Domain
from pddl.exceptions import PDDLError
from pddl.requirements import Requirements

ID = "C08"
TECH = "decision-table monitor: every feature in every position under requirement sets, plus an independent reader on random domains"
RULE = (
    "one evaluation = one (features, positions, declared requirements) decided by the library and by the table; "
    "distinct = distinct such triples"
)
REQUIRE = ["table_accept", "table_reject", "random_accept", "random_reject", "built_accept", "built_reject"]
N = {"quick": 30000, "thorough": 600000}

# feature -> requirements any of which grants it
GRANTS = {
    "or": {"disjunctive-preconditions", "adl"},
    "imply": {"disjunctive-preconditions", "adl"},
    "forall": {"universal-preconditions", "quantified-preconditions", "adl"},
    "exists": {"existential-preconditions", "quantified-preconditions", "adl"},
    "eq": {"equality", "adl"},
    "oneof": {"non-deterministic"},
    "hierarchy": {"typing", "adl"},
    "typed-predicate": {"typing", "adl"},
    "typed-constant": {"typing", "adl"},
    "typed-parameter": {"typing", "adl"},
    "typed-function": {"typing", "adl"},
    "typed-quantifier": {"typing", "adl"},
    "typed-effect-quantifier": {"typing", "adl"},
    "typed-derived": {"typing", "adl"},
    "fluent": {"numeric-fluents", "fluents"},
    "total-cost": {"action-costs"},
    "not": None, "when": None, "eforall": None, "derived": None, "flat-types": None,  # always available
}
FREE = [f for f, g in GRANTS.items() if g is None]
REQ = sorted(lang.REQS)
A, B = ("atom", "q", []), ("atom", "p", [("v", "x")])
WRAPS = ["id", "and", "not", "nest", "not-and"]
PLACES = ["pre", "derived", "when", "when-in-forall", "after"]


def cond(f):
    if f == "or":
        return ("or", [A, B])
    if f == "imply":
        return ("imply", A, B)
    if f in ("forall", "exists"):
        return (f, [(["y"], None)], ("atom", "p", [("v", "y")]))
    if f == "typed-quantifier":
        return None
    if f == "eq":
        return ("=", ("v", "x"), ("v", "x"))
    if f == "not":
        return ("not", A)


def wrap(w, g):
    return {
        "id": lambda: g, "and": lambda: ("and", [A, g]), "not": lambda: ("not", g),
        "nest": lambda: ("and", [("and", [("not", g)]), A]), "not-and": lambda: ("not", ("and", [g, A])),
    }[w]()


def build(feats, r):
    """A domain that uses these features; the positions are random."""
    d = {
        "name": "d", "types": None, "constants": None, "funcs": None,
        "preds": [("p", [(["x"], None)]), ("q", []), ("w", [(["x"], None)])],
    }
    pre, eff, derived, extra = [B], [A], [], []
    tl = [(["x"], None)]
    pos = []
    types = [(["t0", "t1"], None)] if "flat-types" in feats else []
    tname = "object" if r.random() < 0.4 else "t0"
    ty = ("t", tname) if r.random() < 0.7 else ("either", [tname] if r.random() < 0.5 else [tname, "t1"] if tname == "t0" else ["object"])
    typed = [f for f in feats if f.startswith("typed")]
    if typed and (tname == "t0" or r.random() < 0.5) and not types:
        types = [(["t0", "t1"], None)]
    if "hierarchy" in feats:
        types = [(["a0"], r.choice(["object", "b0", "t0"]))] + types
        if r.random() < 0.5:
            types = [(["a1", "a2"], "a0")] + types
    d["types"] = types or None
    for f in feats:
        g = cond(f)
        if f in ("fluent", "total-cost") or f == "typed-function":
            continue
        if g is not None:
            w, place = r.choice(WRAPS), r.choice(PLACES)
            pos.append((f, w, place))
            g = wrap(w, g)
            if place == "pre":
                pre.insert(r.randrange(len(pre) + 1), g)
            elif place == "derived":
                derived.append(g)
            elif place == "when":
                eff.append(("when", g, A))
            elif place == "when-in-forall":
                eff.append(("forall", [(["z"], None)], ("when", g, ("and", [A]))))
            else:
                extra.append(("action", "b%d" % len(extra), [(["x"], None)], g, A))
        elif f == "oneof":
            o = ("oneof", [A, ("not", A)])
            k = r.randrange(3)
            eff.append([o, ("forall", [(["z"], None)], o), ("oneof", [("and", [o]), A])][k])
        elif f == "when":
            eff.append(("when", A, ("not", A)))
        elif f == "eforall":
            eff.append(("forall", [(["z"], None)], ("atom", "p", [("v", "z")])))
        elif f == "derived":
            derived.append(A)
        elif f == "typed-predicate":
            d["preds"].insert(r.randrange(4), ("tp", [(["a", "b"], ty)] if r.random() < 0.5 else [(["a"], ty), (["b"], None)]))
        elif f == "typed-constant":
            d["constants"] = [(["c0"], tname), (["c1"], None)]
        elif f == "typed-parameter":
            extra.append(("action", "tb", [(["a", "x"], ty)], None, None))
        elif f == "typed-effect-quantifier":
            eff.append(("forall", [(["z"], ty)], A))
        elif f == "typed-derived":
            extra.append(("derived", "w", [(["x"], ty)], A))
        elif f == "typed-quantifier":
            k = r.choice(["forall", "exists"])
            pre.append((k, [(["y"], ty)], A))
            pos.append((k, "typed"))
    funcs = []
    if "fluent" in feats:
        funcs.append(("f", [(["a"], None)]))
    if "typed-function" in feats:
        funcs.append(("tf", [(["a"], ty)]))
    if "total-cost" in feats:
        funcs.insert(r.randrange(len(funcs) + 1), ("total-cost", []))
    if "fluent" in feats and r.random() < (0.5 if "total-cost" in feats else 0.1):
        # many others, on either side
        for j in range(r.choice([4, 12, 40])):
            funcs.insert(r.choice([0, r.randrange(len(funcs) + 1)]), (f"more-{j}", [(["a"], None)] * r.randrange(2)))
    if funcs:
        d["funcs"] = [(funcs, r.choice(["number", None]))]
    st = [("action", "a", tl, ("and", pre), ("and", eff)), *extra]
    if derived:
        st.insert(r.randrange(len(st) + 1), ("derived", "w", [(["x"], None)], derived[0] if len(derived) == 1 else ("and", derived)))
    d["structs"] = st
    # features that come with others
    need = set(feats)
    if "typed-function" in feats:
        need.add("fluent")
    for p in pos:
        if p[-1] == "typed":
            need.add(p[0])
    return d, need, pos


def granted(need, reqs):
    return all(GRANTS[f] is None or GRANTS[f] & reqs for f in need)


def req_set(r, need):
    x = r.random()
    if x < 0.1:
        return None
    if x < 0.25:
        return set(r.sample(REQ, r.choice([1, 2])))
    grants = [GRANTS[f] for f in sorted(need) if GRANTS[f]]
    if x < 0.6:  # exactly one way to grant each, maybe but one
        s = {r.choice(sorted(g)) for g in grants}
        if grants and r.random() < 0.5:
            s -= r.choice(grants)
        return s or None
    if x < 0.8 and grants:  # everything but what grants one of them
        return set(REQ) - r.choice(grants)
    return set(r.sample(REQ, r.randrange(1, len(REQ) + 1)))


class St:
    pass


def cases(tier):
    return N[tier]


def setup():
    st = St()
    st.parser = PARSER["domain"]()
    st.grid = [(f, s) for f in sorted(GRANTS) for k in (0, 1, 2) for s in itertools.combinations(REQ, k)]
    return st


def case(i, st, ctx):
    r = ctx.rng(i)
    if i < len(st.grid):
        f, reqs = st.grid[i]
        d, need, pos = build({f}, r)
        reqs = set(reqs)
        table(st, ctx, r, d, need, pos, reqs)
    elif i % 2:
        feats = set(r.sample(sorted(GRANTS), r.choice([1, 1, 2, 3, 5])))
        d, need, pos = build(feats, r)
        table(st, ctx, r, d, need, pos, req_set(r, need) or set())
    else:
        # a random domain under other requirements
        g = gen.Gen(r, **c01.knobs(r))
        d = g.domain()
        own = set(d["reqs"] or ())
        x = r.random()
        if x < 0.5 and own:
            d["reqs"] = sorted(own - {r.choice(sorted(own))}) or None
        elif x < 0.7:
            d["reqs"] = sorted(r.sample(REQ, r.randrange(1, 8)))
        elif x < 0.85:
            d["reqs"] = sorted((own - {"typing", "equality", "disjunctive-preconditions"}) | {r.choice(["adl", "fluents", "quantified-preconditions"])})
        elif x < 0.9:
            d["reqs"] = None
        text = lang.plain(lang.tokens_domain(d))
        try:
            want = lang.canon_domain(reader.read("domain", text))
        except lang.Unsure:
            return
        except lang.Reject:
            want = None
        got, x = parse(st.parser, text)
        ctx.seen(text)
        decide(ctx, "random", want is not None, got, x, text)
        if want is not None:
            same(want, canon.domain(x), "content", text=text[:6000])


def decide(ctx, what, want, got, x, text, cls=ORDERLY):
    ctx.count(what + ("_accept" if want else "_reject"))
    if want and got != "ok":
        raise Violation(f"{what}: the requirements grant every feature in use, yet: {type(x).__name__}: {str(x)[:300]}", text=text[:6000])
    if not want:
        if got == "ok":
            raise Violation(f"{what}: a feature in use is not granted by the declared requirements, yet accepted", text=text[:6000])
        if not isinstance(x, cls):
            raise Violation(f"{what}: rejected with {type(x).__name__}: {str(x)[:200]}", text=text[:6000])


def table(st, ctx, r, d, need, pos, reqs):
    lst = sorted(reqs)
    r.shuffle(lst)
    d["reqs"] = lst or None
    want = granted(need, reqs)
    text = lang.plain(lang.tokens_domain(d))
    got, x = parse(st.parser, text)
    ctx.seen(sorted(need), pos, sorted(reqs))
    ctx.sample(text[:600])
    decide(ctx, "table", want, got, x, text, PDDLError)
    if got == "ok":
        same(frozenset(reqs), frozenset(q.value for q in x.requirements), "declared requirements", text=text[:3000])
    # the same through the constructors: only what they can see (typing, functions) matters
    need2 = {f for f in need if f.startswith("typed") or f in ("hierarchy", "fluent", "total-cost")}
    c = lang.canon_domain(d)
    if "hierarchy" not in need2 and any(p for p in c["types"].values()):
        return
    if "hierarchy" in need2 and not any(p for p in c["types"].values()):
        need2.discard("hierarchy")
    want2 = granted(need2, reqs)
    try:
        obj = Builder(r).domain(c)
        got, x = "ok", obj
    except Exception as e:  # noqa: B902
        got, x = "err", e
    decide(ctx, "built", want2, got, x, text, PDDLError)
    if got == "ok":
        same(frozenset(reqs), frozenset(q.value for q in x.requirements), "declared requirements (built)", text=text[:3000])
        if not isinstance(x, Domain) or not all(isinstance(q, Requirements) for q in x.requirements):
            raise Violation("not a domain with requirements", text=text)
