"""C09: the type discipline of domains: hierarchies without cycles, no undeclared type in use."""
from checks import c01
from vlib.h import Builder, PARSER, canon, gen, lang, parse, reader, same, Violation
from pddl.exceptions import PDDLError

ID = "C09"
TECH = "fault-injection monitor: valid domains with one typing fault, through texts and constructors, against a graph oracle"
RULE = "one evaluation = one hierarchy or domain judged by the library and the oracle; distinct = distinct (kind of fault, place, shape)"
REQUIRE = ["twins", "cycles_rejected", "hierarchies_accepted", "undeclared_rejected", "valid_accepted", "untyped_rejected", "text_cycles"]
N = {"quick": 24000, "thorough": 160000}


class St:
    pass


def cases(tier):
    return N[tier]


def setup():
    st = St()
    st.parser = PARSER["domain"]()
    return st


def case(i, st, ctx):
    r = ctx.rng(i)
    if i % 3 == 0:
        hierarchy(i, st, ctx, r)
    else:
        fault(i, st, ctx, r)


# ---------------------------------------------------------------- hierarchies
def hierarchy(i, st, ctx, r):
    n = r.choice([1, 2, 3, 4, 6, 10, 40])
    names = [f"t{k}" for k in range(n)]
    if r.random() < 0.3:
        names = gen.Gen(r).names(n)
    order = list(names)
    r.shuffle(order)
    parent = {}
    shape = r.choice(["forest", "random", "rho", "self", "chain"])
    for k, t in enumerate(order):
        if shape == "chain":
            parent[t] = order[k - 1] if k else r.choice([None, "object"])
        elif shape == "random":
            parent[t] = r.choice(order + [None, "object", "implicit-1"])
        else:
            parent[t] = r.choice(order[:k] + [None, "object", "implicit-1"]) if r.random() < 0.8 or not k else order[k - 1]
    if shape == "rho":
        a = r.randrange(n)
        b = r.randrange(a, n)
        for k in range(a, b):
            parent[order[k]] = order[k + 1]
        parent[order[b]] = order[a]
    if shape == "self":
        t = r.choice(order)
        parent[t] = t
    items = list(parent.items())
    r.shuffle(items)
    ok, ln = acyclic(parent)
    # text
    groups = [([t], p) for t, p in items if p is not None] + [([t for t, p in items if p is None], None)]
    groups = [g for g in groups if g[0]]
    d = {
        "name": "d", "reqs": [r.choice(["typing", "adl"])], "types": groups, "constants": None,
        "preds": [("p", [(["x"], ("t", r.choice(names)))])], "funcs": None, "structs": [],
    }
    if r.random() < 0.3:
        t = r.choice(names)
        d["structs"] = [("derived", "p", [(["x"], ("t", t))], ("atom", "p", [("v", "x")]))]
    text = lang.plain(lang.tokens_domain(d))
    try:
        want = lang.canon_domain(reader.read("domain", text))
    except lang.Reject:
        want = None
    got, x = parse(st.parser, text)
    ctx.seen("hier", shape, n, ln)
    if not ok:
        ctx.count("text_cycles")
    if want is None:
        if got == "ok":
            raise Violation("a domain with a faulty type hierarchy is accepted", text=text)
        if not isinstance(x, PDDLError):
            raise Violation(f"a faulty hierarchy is rejected with {type(x).__name__}: {x}", text=text)
    else:
        if got != "ok":
            raise Violation(f"a correct type hierarchy is rejected: {type(x).__name__}: {x}", text=text)
        same(want["types"], canon.domain(x)["types"], "the hierarchy of the domain", text=text)
    # constructor
    c = {
        "name": "d", "reqs": frozenset(["typing"]), "types": parent, "constants": frozenset(), "preds": frozenset(),
        "funcs": frozenset(), "actions": frozenset(), "derived": frozenset(),
    }
    if r.random() < 0.1:
        c["types"] = dict(parent, object=r.choice([None, names[0]]))
        ok = ok and c["types"]["object"] is None
    got, x = attempt(lambda: Builder(r).domain(c))
    if ok != (got == "ok"):
        raise Violation(f"constructor: hierarchy {'correct' if ok else 'faulty'}, got {got} {x if got == 'err' else ''}", types=c["types"])
    if ok:
        ctx.count("hierarchies_accepted")
        same(c["types"], canon.domain(x)["types"], "the hierarchy of the domain", types=c["types"])
    else:
        ctx.count("cycles_rejected")
        if not isinstance(x, PDDLError):
            raise Violation(f"a faulty hierarchy is rejected with {type(x).__name__}: {x}", types=c["types"])


def acyclic(parent):
    longest = 0
    for t in parent:
        x, k = t, 0
        while x is not None and x != "object":
            k += 1
            if k > len(parent) + 1:
                return False, -1
            x = parent.get(x)
        longest = max(longest, k)
    return True, longest


def attempt(f):
    try:
        return "ok", f()
    except Exception as e:  # noqa: B902
        return "err", e


# ---------------------------------------------------------------- faults in the use of types
def places(c):
    """Every place of a canonical domain that carries a type: paths to (var, types) or (const, type)."""
    out = []

    def walk(v, path):
        if isinstance(v, tuple):
            if len(v) == 3 and v[0] == "var" and isinstance(v[2], frozenset):
                out.append((path, "occurrence"))
                return
            if len(v) == 3 and v[0] == "const" and (v[2] is None or isinstance(v[2], str)):
                out.append((path, "const-occurrence"))
                return
            if len(v) == 2 and isinstance(v[0], str) and isinstance(v[1], frozenset) and all(isinstance(t, str) for t in v[1]):
                out.append((path, "binder"))
                return
            for k, w in enumerate(v):
                walk(w, path + (k,))
        elif isinstance(v, frozenset):
            for w in sorted(v, key=str):
                walk(w, path + (("in", w),))

    for sec in ("preds", "funcs", "actions", "derived"):
        walk(c[sec], (sec,))
    for x in sorted(c["constants"], key=str):
        out.append((("constants", ("in", x)), "constant"))
    return out


def put(v, path, f):
    """v with f applied at path."""
    if not path:
        return f(v)
    h, t = path[0], path[1:]
    if isinstance(h, tuple):
        return (v - {h[1]}) | {put(h[1], t, f)}
    return v[:h] + (put(v[h], t, f),) + v[h + 1:]


def fault(i, st, ctx, r):
    g = gen.Gen(r, typing=True, **{k: v for k, v in c01.knobs(r).items()})
    d = g.domain()
    c = lang.canon_domain(d)
    text = lang.plain(lang.tokens_domain(d))
    if i % 4 == 0:
        # no typing requirement at all, or types not declared: judged by the reader
        x = r.random()
        if x < 0.5:
            d["reqs"] = [q for q in (d["reqs"] or []) if q not in ("typing", "adl")] or None
        elif d["types"]:
            gone = r.randrange(len(d["types"]))
            d["types"] = d["types"][:gone] + d["types"][gone + 1:]
        text = lang.plain(lang.tokens_domain(d))
        try:
            reader.read("domain", text)
            want = True
        except lang.Unsure:
            return
        except lang.Reject:
            want = False
        got, x = parse(st.parser, text)
        ctx.seen("text", want, text)
        ctx.count("untyped_accepted" if want else "untyped_rejected")
        if want != (got == "ok"):
            raise Violation(f"types in use {'declared' if want else 'not declared'}, yet {got}: {x if got == 'err' else ''}", text=text[:6000])
        return
    got, x = attempt(lambda: Builder(r).domain(c))
    if got != "ok":
        raise Violation(f"a domain whose types are all declared is rejected: {type(x).__name__}: {x}", text=text[:6000])
    ctx.count("valid_accepted")
    ps = places(c)
    if not ps:
        return
    path, kind = r.choice(ps)
    bad = r.choice(["zz-undeclared", "Object", "OBJECT", "t-", "number"])
    known = set(c["types"]) | set(c["types"].values())
    if bad in known:
        return

    def spoil(v):
        if kind == "occurrence":
            return (v[0], v[1], mix(v[2]))
        if kind == "binder":
            return (v[0], mix(v[1]))
        if kind == "constant":
            return (v[0], bad)
        return (v[0], v[1], bad)

    def mix(types):
        return types | {bad} if r.random() < 0.4 else frozenset([bad])

    sec = path[0]
    c2 = dict(c)
    c2[sec] = put(c[sec], path[1:], spoil)
    if kind in ("occurrence", "binder") and r.random() < 0.3:
        # next to the same thing without the fault
        ctx.count("twins")
        c2[sec] |= c[sec]
    got, x = attempt(lambda: Builder(r).domain(c2))
    ctx.seen("fault", sec, kind, bad, len(path))
    ctx.sample(f"{bad} at {path!r}"[:300])
    if got == "ok":
        # constants are identified by name: an occurrence merged with another one may hide the fault
        if "zz" in str(canon.domain(x)) or bad in str(canon.domain(x)):
            raise Violation(f"undeclared type {bad} accepted ({sec}, {kind})", where=str(path)[:1500], text=text[:6000])
        ctx.count("fault_vanished")
        return
    if not isinstance(x, (PDDLError, ValueError)):
        raise Violation(f"undeclared type rejected with {type(x).__name__}: {x}", where=str(path)[:1500])
    ctx.count("undeclared_rejected")
    # and as a text, for declarations
    if kind in ("constant", "binder") and r.random() < 0.5:
        t2 = text_fault(d, r, bad)
        if t2 is None:
            return
        got, x = parse(st.parser, t2)
        if got == "ok":
            raise Violation(f"undeclared type {bad} accepted in a text", text=t2[:6000])


def text_fault(d, r, bad):
    toks = lang.tokens_domain(d)
    dashes = [k for k, t in enumerate(toks) if t == "-" and k + 1 < len(toks)]
    lo = toks.index(":types") if ":types" in toks else 0
    hi = lo
    if lo:
        while toks[hi] != ")":
            hi += 1
    fl = [k for k in dashes if not lo <= k <= hi and toks[k + 1] not in ("number", "(") and toks[k - 1] != "("]
    if ":functions" in toks:
        fl = [k for k in fl if toks[k - 1] != ")"]
    fl = [k for k in fl if toks[k + 1][0].isalpha()]
    if not fl:
        return None
    toks = list(toks)
    toks[r.choice(fl) + 1] = bad
    t = " ".join(toks)
    try:
        reader.read("domain", t)
        return None
    except lang.Unsure:
        return None
    except lang.Reject:
        return t
