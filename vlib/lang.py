"""PDDL as the monitors understand it, independently of the code under test.

* *surface* trees: nested tuples/dicts, what a PDDL text says, with its grouping;
* `tokens_*`: surface tree -> token list; `layout`: token list -> text (with random layout);
* `canon_*`: surface tree -> canonical value, the meaning the parser has to report.

Canonical formulas are nested tuples; `and`/`or` are flattened, deduplicated (first occurrence kept)
and collapsed when a single operand is left; the variables of a quantifier are a set.
"""
from fractions import Fraction

RESERVED = {
    "define", "domain", "problem", "and", "or", "not", "imply", "forall", "exists", "when", "oneof",
    "either", "object", "assign", "increase", "decrease", "scale-up", "scale-down", "minimize",
    "maximize", "total-cost",
}
NUM_EFF = ("assign", "scale-up", "scale-down", "increase", "decrease")
REQS = {
    "strips", "typing", "negative-preconditions", "disjunctive-preconditions", "universal-preconditions",
    "existential-preconditions", "quantified-preconditions", "equality", "conditional-effects", "adl",
    "derived-predicates", "non-deterministic", "fluents", "numeric-fluents", "action-costs",
}
IMPLIED = {
    "quantified-preconditions": {"universal-preconditions", "existential-preconditions"},
    "adl": {
        "strips", "typing", "negative-preconditions", "disjunctive-preconditions", "equality",
        "conditional-effects", "universal-preconditions", "existential-preconditions",
    },
    "fluents": {"numeric-fluents", "object-fluents"},
}


def extend(reqs):
    out = set(reqs or ())
    for r in list(out):
        out |= IMPLIED.get(r, set())
    return out


class Reject(Exception):
    """The text is not acceptable (the reference reader's verdict)."""


class Unsure(Exception):
    """The text uses something the properties do not settle."""


# ---------------------------------------------------------------- tokens (surface -> token list)
def _tl(tl):
    out = []
    for names, ty in tl:
        for n in names:
            out += ["?" + n]
        if ty is not None:
            out.append("-")
            if ty[0] == "t":
                out.append(ty[1])
            else:
                out += ["(", "either", *ty[1], ")"]
    return out


def _nl(nl):
    out = []
    for names, parent in nl:
        out += list(names)
        if parent is not None:
            out += ["-", parent]
    return out


def _term(t):
    return ("?" + t[1]) if t[0] == "v" else t[1]


def tok_exp(e):
    k = e[0]
    if k == "n":
        return [e[1]]
    if k == "f":
        if e[3]:
            return [e[1]]
        return ["(", e[1], *map(_term, e[2]), ")"]
    out = ["(", e[1]]
    for x in e[2]:
        out += tok_exp(x)
    return out + [")"]


def tok_gd(g):
    k = g[0]
    if k == "atom":
        return ["(", g[1], *map(_term, g[2]), ")"]
    if k == "=":
        return ["(", "=", _term(g[1]), _term(g[2]), ")"]
    if k in ("and", "or"):
        out = ["(", k]
        for x in g[1]:
            out += tok_gd(x)
        return out + [")"]
    if k == "not":
        return ["(", "not", *tok_gd(g[1]), ")"]
    if k == "imply":
        return ["(", "imply", *tok_gd(g[1]), *tok_gd(g[2]), ")"]
    if k in ("forall", "exists"):
        return ["(", k, "(", *_tl(g[1]), ")", *tok_gd(g[2]), ")"]
    if k == "cmp":
        return ["(", g[1], *tok_exp(g[2]), *tok_exp(g[3]), ")"]
    raise AssertionError(k)


def tok_eff(e):
    k = e[0]
    if k == "and":
        out = ["(", "and"]
        for x in e[1]:
            out += tok_eff(x)
        return out + [")"]
    if k == "forall":
        return ["(", "forall", "(", *_tl(e[1]), ")", *tok_eff(e[2]), ")"]
    if k == "when":
        return ["(", "when", *tok_gd(e[1]), *tok_eff(e[2]), ")"]
    if k == "oneof":
        out = ["(", "oneof"]
        for x in e[1]:
            out += tok_eff(x)
        return out + [")"]
    if k == "num":
        return ["(", e[1], *tok_exp(e[2]), *tok_exp(e[3]), ")"]
    return tok_gd(e)


def tokens_domain(d):
    out = ["(", "define", "(", "domain", d["name"], ")"]
    if d["reqs"] is not None:
        out += ["(", ":requirements", *(":" + r for r in d["reqs"]), ")"]
    if d["types"] is not None:
        out += ["(", ":types", *_nl(d["types"]), ")"]
    if d["constants"] is not None:
        out += ["(", ":constants", *_nl(d["constants"]), ")"]
    if d["preds"] is not None:
        out += ["(", ":predicates"]
        for n, tl in d["preds"]:
            out += ["(", n, *_tl(tl), ")"]
        out.append(")")
    if d["funcs"] is not None:
        out += ["(", ":functions"]
        for group, ty in d["funcs"]:
            for n, tl in group:
                out += ["(", n, *_tl(tl), ")"]
            if ty is not None:
                out += ["-", ty]
        out.append(")")
    for s in d["structs"]:
        if s[0] == "action":
            _, n, tl, pre, eff = s
            out += ["(", ":action", n, ":parameters", "(", *_tl(tl), ")"]
            if pre is not None:
                out += [":precondition"] + (["(", ")"] if pre[0] == "empty" else tok_gd(pre))
            if eff is not None:
                out += [":effect"] + (["(", ")"] if eff[0] == "empty" else tok_eff(eff))
            out.append(")")
        else:
            _, n, tl, cond = s
            out += ["(", ":derived", "(", n, *_tl(tl), ")", *tok_gd(cond), ")"]
    return out + [")"]


def tokens_problem(p):
    out = ["(", "define", "(", "problem", p["name"], ")", "(", ":domain", p["domain"], ")"]
    if p["reqs"] is not None:
        out += ["(", ":requirements", *(":" + r for r in p["reqs"]), ")"]
    if p["objects"] is not None:
        out += ["(", ":objects", *_nl(p["objects"]), ")"]
    out += ["(", ":init"]
    for el in p["init"]:
        if el[0] == "atom":
            out += tok_gd(el)
        elif el[0] == "not":
            out += ["(", "not", *tok_gd(el[1]), ")"]
        else:  # ("val", f, num)
            out += ["(", "=", *tok_exp(el[1]), el[2], ")"]
    out += [")", "(", ":goal", *tok_gd(p["goal"]), ")"]
    if p["metric"] is not None:
        out += ["(", ":metric", p["metric"][0], *tok_exp(p["metric"][1]), ")"]
    return out + [")"]


def tokens_plan(pl):
    out = []
    for n, args in pl:
        out += ["(", n, *args, ")"]
    return out


# ---------------------------------------------------------------- layout (token list -> text)
def plain(tokens):
    return " ".join(tokens)


WS = [" ", "  ", "\n", "\t", "\r\n", "\n\n   ", " \t ", "\f", "\v", "\u00a0", "\u2003"]
COMMENTS = [
    ";", "; plain", ";)", "; ( ( (", ";; (define (domain x))", "; ' \" \\ | # :action", "; \u00e9\u4e2d\U0001f600", ";;;;;;",
    "; (:goal ())", ";\t- object ?x", "; and (not)", ";)))", ";- t",
    # what other tools take for the end of a line
    "; \f )", ";\v(", "; \x85 (and)", "; \u2028 ) (", ";\u2029 x", "; \x1c ) \x1d ( \x1e x", "; \x00 ( \x1a )",
]


def layout(tokens, rng, mode=None):
    """Lay the tokens out: dense, airy, commented... (mode None: random)."""
    mode = mode or rng.choice(["plain", "dense", "lines", "wild", "comments", "wild"])
    if mode == "plain":
        return " ".join(tokens)
    out = []
    if mode in ("wild", "comments") and rng.random() < 0.5:
        out.append(_gap(rng, mode))
    prev = None
    for t in tokens:
        need = prev is not None and prev not in ("(", ")") and t not in ("(", ")")
        if t.startswith("?") and prev is not None and prev not in ("(", ")"):
            # '?' delimits, but a '-' before it must stay separate only from a name
            need = mode != "dense"
        if prev == "-" and mode == "dense":
            need = False
        if mode == "dense":
            if need:
                out.append(" ")
        elif mode == "lines":
            if prev is not None:
                out.append("\n" if rng.random() < 0.5 or t == "(" else " ")
        else:
            p = 0.5 if mode == "wild" else 0.3
            if need or (prev is not None and rng.random() < p):
                out.append(_gap(rng, mode))
        if t.startswith("?") and mode == "wild" and rng.random() < 0.05:
            out.append("?" + rng.choice([" ", "\n", "\t"]) + t[1:])
        else:
            out.append(t)
        prev = t
    if mode in ("wild", "comments"):
        if rng.random() < 0.6:
            out.append(_gap(rng, mode))
        if rng.random() < 0.3:
            out.append(" " + rng.choice(COMMENTS))  # comment at the very end, no newline
    return "".join(out)


def _gap(rng, mode):
    s = ""
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        if mode == "comments" or rng.random() < 0.15:
            s += rng.choice(["", " ", "\n"]) + rng.choice(COMMENTS) + "\n"
        else:
            s += rng.choice(WS)
    return s


# ---------------------------------------------------------------- canonical meaning
def norm_nary(op, ops):
    """Flatten, drop duplicates (first occurrence stays), collapse a singleton."""
    out, seen = [], set()
    stack = list(reversed(ops))
    while stack:
        x = stack.pop()
        if isinstance(x, tuple) and x and x[0] == op:
            stack.extend(reversed(x[1]))
        elif x not in seen:
            seen.add(x)
            out.append(x)
    if len(out) == 1:
        return out[0]
    return (op, tuple(out))


def types_of(ty):
    if ty is None:
        return frozenset()
    return frozenset([ty[1]]) if ty[0] == "t" else frozenset(ty[1])


def flat_tl(tl):
    """Typed list of variables -> ((name, types), ...) in order."""
    return tuple((n, types_of(ty)) for names, ty in tl for n in names)


def flat_nl(nl):
    return tuple((n, p) for names, p in nl for n in names)


def num(text):
    return Fraction(float(text)) if "." in text else Fraction(int(text))


class Scope:
    """Where an occurrence of a term gets its type from."""

    def __init__(self, env=None, ctypes=None):
        self.env = env or {}
        self.ctypes = ctypes  # constant name -> type, or None: constants carry no type here

    def bind(self, tl):
        env = dict(self.env)
        for n, t in flat_tl(tl):
            env[n] = t
        return Scope(env, self.ctypes)

    def term(self, t):
        if t[0] == "v":
            return ("var", t[1], self.env.get(t[1], frozenset()))
        if self.ctypes is None:
            return ("const", t[1])
        return ("const", t[1], self.ctypes.get(t[1]))


def c_exp(e, sc):
    k = e[0]
    if k == "n":
        return ("num", num(e[1]))
    if k == "f":
        return ("fun", e[1], tuple(sc.term(t) for t in e[2]))
    return ("op", e[1], tuple(c_exp(x, sc) for x in e[2]))


def c_gd(g, sc):
    k = g[0]
    if k == "empty":
        return ("and", ())
    if k == "atom":
        return ("pred", g[1], tuple(sc.term(t) for t in g[2]))
    if k == "=":
        return ("eq", sc.term(g[1]), sc.term(g[2]))
    if k in ("and", "or"):
        return norm_nary(k, [c_gd(x, sc) for x in g[1]])
    if k == "not":
        return ("not", c_gd(g[1], sc))
    if k == "imply":
        return ("imply", c_gd(g[1], sc), c_gd(g[2], sc))
    if k in ("forall", "exists"):
        return (k, frozenset(flat_tl(g[1])), c_gd(g[2], sc.bind(g[1])))
    if k == "cmp":
        return ("cmp", g[1], (c_exp(g[2], sc), c_exp(g[3], sc)))
    raise AssertionError(k)


def c_eff(e, sc):
    k = e[0]
    if k == "empty":
        return ("and", ())
    if k == "and":
        return norm_nary("and", [c_eff(x, sc) for x in e[1]])
    if k == "forall":
        return ("eforall", frozenset(flat_tl(e[1])), c_eff(e[2], sc.bind(e[1])))
    if k == "when":
        return ("when", c_gd(e[1], sc), c_eff(e[2], sc))
    if k == "oneof":
        return ("oneof", tuple(c_eff(x, sc) for x in e[1]))
    if k == "num":
        return ("cmp", e[1], (c_exp(e[2], sc), c_exp(e[3], sc)))
    return c_gd(e, sc)


def canon_domain(d):
    types = {}
    for n, p in flat_nl(d["types"] or []):
        types[n] = None if p == "object" else p
    ctypes = dict(flat_nl(d["constants"] or []))
    preds = {n: flat_tl(tl) for n, tl in (d["preds"] or [])}
    actions, derived = set(), set()
    for s in d["structs"]:
        if s[0] == "action":
            _, n, tl, pre, eff = s
            sc = Scope(None, ctypes).bind(tl)
            actions.add((
                n,
                flat_tl(tl),
                None if pre is None else c_gd(pre, sc),
                None if eff is None else c_eff(eff, sc),
            ))
        else:
            _, n, tl, cond = s
            decl = preds[n]
            head = tuple(
                (v, t if t else dt) for (v, t), (_, dt) in zip(flat_tl(tl), decl)
            )
            sc = Scope(dict(head), ctypes)
            derived.add((n, head, c_gd(cond, sc)))
    return {
        "name": d["name"],
        "reqs": frozenset(d["reqs"] or ()),
        "types": types,
        "constants": frozenset(ctypes.items()),
        "preds": frozenset((n, flat_tl(tl)) for n, tl in (d["preds"] or [])),
        "funcs": frozenset(
            (n, flat_tl(tl), ty) for group, ty in (d["funcs"] or []) for n, tl in group
        ),
        "actions": frozenset(actions),
        "derived": frozenset(derived),
    }


def canon_problem(p):
    sc = Scope(None, None)
    init = set()
    for el in p["init"]:
        if el[0] == "atom":
            init.add(c_gd(el, sc))
        elif el[0] == "not":
            init.add(("not", c_gd(el[1], sc)))
        else:
            init.add(("cmp", "=", (c_exp(el[1], sc), ("num", num(el[2])))))
    return {
        "name": p["name"],
        "domain": p["domain"],
        "reqs": frozenset(p["reqs"] or ()),
        "objects": frozenset(flat_nl(p["objects"] or [])),
        "init": frozenset(init),
        "goal": c_gd(p["goal"], sc),
        "metric": None if p["metric"] is None else (p["metric"][0], c_exp(p["metric"][1], sc)),
    }


def canon_plan(pl):
    return tuple((n, tuple(args)) for n, args in pl)
