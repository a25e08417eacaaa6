"""C10: derived predicates against the declared predicate."""
from vlib.h import PARSER, canon, gen, lang, parse, reader, same, Violation
from pddl.exceptions import PDDLError
from lark.exceptions import LarkError

ID = "C10"
TECH = "decision monitor against a subtype oracle over random hierarchies"
RULE = "one evaluation = one derived predicate accepted or rejected by the library and by the oracle; distinct = distinct (hierarchy, declaration, head)"
REQUIRE = ["accepted", "rejected_types", "rejected_arity", "rejected_undeclared", "either", "deep"]
N = {"quick": 40000, "thorough": 300000}


class St:
    pass


def cases(tier):
    return N[tier]


def setup():
    st = St()
    st.parser = PARSER["domain"]()
    return st


def case(i, st, ctx):
    r = ctx.rng(i)
    n = r.choice([1, 2, 3, 5, 8, 8, 30])
    ts = [f"t{k}" for k in range(n)]
    if r.random() < 0.2:
        ts = gen.Gen(r).names(n)
    r.shuffle(ts)
    chain = r.random() < 0.4
    parent = {}
    for k, t in enumerate(ts):
        parent[t] = r.choice([None, "object", None]) if k == 0 or (not chain and r.random() < 0.25) else (ts[k - 1] if chain else r.choice(ts[:k]))
    up = {t: ancestors(t, parent) for t in ts}

    def pick(near=None):
        """None, a type, or (either ...)."""
        x = r.random()
        if x < 0.12:
            return None
        if x < 0.2:
            return ("t", "object")
        if near and x < 0.75:
            pool = [t for t in ts if up[t] & set(near)] or ts
        else:
            pool = ts
        if r.random() < 0.65:
            return ("t", r.choice(pool))
        ctx.count("either")
        k = r.choice([1, 2, 2, 3])
        out = list(dict.fromkeys(r.choice(pool if r.random() < 0.8 else ts) for _ in range(k)))
        if r.random() < 0.05:
            out.append("object")
        return ("either", out)

    ar = r.choice([1, 1, 2, 3, 5] if r.random() < 0.96 else [8, 12, 20])
    decl = [pick() for _ in range(ar)]
    # an untyped variable can only be written after the typed ones
    decl.sort(key=lambda t: t is None)
    head = [pick(near=(t[1] if t and t[0] == "either" else [t[1]] if t else None)) for t in decl]
    if ar > 5:
        # all fit but one, perhaps
        one = r.randrange(ar)
        head = [h if k == one else t for k, (h, t) in enumerate(zip(head, decl))]
    cut = next((k for k, t in enumerate(head) if t is None), ar)
    head = head[:cut] + [None] * (ar - cut)
    if r.random() < 0.05:
        head.append(None)
    elif r.random() < 0.05:
        head.pop()
    pname = r.choice(["p", "p", "pred-1", "Above", "on_top"])
    name = pname if r.random() > 0.06 else r.choice(["missing", pname.swapcase(), pname + "x", pname + "-", "p-" + pname, pname[:-1] or "pp"])
    preds = [(pname, [([f"a{k}"], t) for k, t in enumerate(decl)]), ("q", []), ("u", [(["x"], None)])]
    r.shuffle(preds)
    vs = [f"h{k}" for k in range(len(head))]
    if r.random() < 0.3:
        vs = [f"a{(k * 3 + 1) % (7 if len(head) < 7 else 23)}" for k in range(len(head))]
    tl = [([v], t) for v, t in zip(vs, head) if t is not None]
    rest = [v for v, t in zip(vs, head) if t is None]
    if rest:
        tl.append((rest, None))
    body = ("and", [("atom", "u", [("v", v)]) for v in vs] + [("atom", "q", [])])
    if r.random() < 0.3 and vs:
        body = ("exists", [(["zz"] + ([vs[0]] if r.random() < 0.5 else []), ("t", r.choice(ts)))], ("and", [body, ("atom", "u", [("v", "zz")])]))
    structs = [("derived", name, tl, body)]
    if r.random() < 0.4:
        # an action whose parameters have the same names but other types, before or after
        act = ("action", "act", [([v], ("t", r.choice(ts))) for v in vs], ("and", [("atom", "u", [("v", v)]) for v in vs]), None)
        structs.insert(r.randrange(2), act)
    groups = [([t], p) for t, p in parent.items() if p is not None]
    r.shuffle(groups)
    flat = [t for t, p in parent.items() if p is None]
    if flat:
        groups.append((flat, None))
    d = {
        "name": "d", "reqs": ["typing", "derived-predicates", "existential-preconditions"], "types": groups, "constants": None,
        "preds": preds, "funcs": None, "structs": structs,
    }
    text = lang.layout(lang.tokens_domain(d), r, "plain")
    # the oracle of this check
    verdict = "ok"
    if name != pname:
        verdict = "undeclared"
    elif len(head) != ar:
        verdict = "arity"
    elif len(set(vs)) != len(vs):
        return
    else:
        for h, t in zip(head, decl):
            if h is None or t is None:
                continue
            hs = h[1] if h[0] == "either" else [h[1]]
            dt = set(t[1] if t[0] == "either" else [t[1]])
            if "object" in dt:
                continue
            if any(not (up.get(x, {x}) & dt) for x in hs):
                verdict = "types"
    got, x = parse(st.parser, text)
    ctx.seen(text)
    ctx.sample(text[:600])
    depth = max(len(u) for u in up.values())
    if depth > 6:
        ctx.count("deep")
    if verdict == "ok":
        ctx.count("accepted")
        if got != "ok":
            raise Violation(f"correct derived predicate rejected: {type(x).__name__}: {x}", text=text)
        same(lang.canon_domain(d), canon.domain(x), "content of the domain", text=text)
    else:
        ctx.count("rejected_" + verdict)
        if got == "ok":
            raise Violation(f"derived predicate accepted although it does not fit its declaration ({verdict})", text=text)
        if not isinstance(x, (PDDLError, LarkError)):
            raise Violation(f"rejected with {type(x).__name__}: {x}", text=text)
    # both oracles agree
    try:
        reader.read("domain", text)
        alt = True
    except lang.Reject:
        alt = False
    if alt != (verdict == "ok"):
        raise AssertionError("harness: the two oracles disagree " + text)


def ancestors(t, parent):
    out = set()
    x = t
    while x is not None and x not in out:
        out.add(x)
        if x == "object":
            break
        x = parent.get(x)
    return out
