"""C16: a problem fits a domain exactly when name, requirements and types agree; and it cannot be made otherwise."""
from checks import c01
from vlib.h import Builder, PARSER, TOKENS, canon, gen, lang, same, Violation
from pddl.core import Problem
from pddl.exceptions import PDDLError, PDDLValidationError
from pddl.logic.base import And, Imply, Not, Or
from pddl.logic.effects import When
from pddl.logic.predicates import Predicate
from pddl.logic.terms import Constant
from pddl.requirements import Requirements

ID = "C16"
TECH = "reference-model monitor: set-theoretic oracle of the fit over valid and mutated pairs, through every way of pairing them"
RULE = (
    "one evaluation = one problem confronted with one domain through one route (check, constructor, assignment), verdict and state "
    "compared with the oracle; distinct = distinct (route, verdict, reason, mutation, shape)"
)
REQUIRE = [
    "check_fits", "check_refused", "constructor_fits", "constructor_refused", "setter_fits", "setter_refused", "name_refused", "reqs_refused",
    "types_refused", "typing_refused", "non_literal_refused", "argument_errors", "checked_against_another", "attached_then_checked",
]
N = {"quick": 12000, "thorough": 200000}


class St:
    pass


def cases(tier):
    return N[tier]


def setup():
    st = St()
    st.p = {k: PARSER[k]() for k in ("domain", "problem")}
    return st


def tags(f, out):
    """Every type mentioned by the terms of a canonical formula (types of constants included)."""
    if isinstance(f, tuple) and f:
        if f[0] == "var":
            out |= f[2]
            return
        if f[0] == "const":
            if len(f) > 2 and f[2] is not None:
                out.add(f[2])
            return
        if f[0] in ("forall", "exists"):
            for _, t in f[1]:
                out |= t
            tags(f[2], out)
            return
        for x in f:
            tags(x, out)
    elif isinstance(f, frozenset):
        for x in f:
            tags(x, out)


def fit(cd, name, reqs, used):
    """None, or why the problem does not fit."""
    if name.lower() != cd["name"].lower():
        return "name"
    if reqs is not None and not reqs <= cd["reqs"]:
        return "reqs"
    if used and "typing" not in lang.extend(cd["reqs"]):
        return "typing"
    have = set(cd["types"]) | {v for v in cd["types"].values() if v is not None} | {"object"}
    if not used <= have:
        return "types"
    return None


def used_types(prob):
    out = set()
    for c in prob.objects:
        if c.type_tag is not None:
            out.add(str(c.type_tag))
    for f in list(prob.init) + [prob.goal]:
        tags(canon.formula(f, True), out)
    return out


def case(i, st, ctx):
    r = ctx.rng(i)
    g = gen.Gen(r, **({"bulk": True, "size": 1, "typing": True} if r.random() < 0.06 else c01.knobs(r)))
    d = g.domain()
    p = g.problem(d)
    cd, cp = lang.canon_domain(d), lang.canon_problem(p)
    parsed = r.random() < 0.3
    what = mutate(r, g, cd, cp) if r.random() < 0.75 else "none"
    b = Builder(r)
    try:
        dom = b.domain(cd)
    except PDDLError:
        ctx.count("domain_itself_invalid")
        return
    declare = r.random() < 0.8
    if parsed and what == "none":
        prob = st.p["problem"](" ".join(TOKENS["problem"](p)))
        declared = cp["reqs"] if p["reqs"] else None
    else:
        prob = b.problem(cp, declare=declare)
        declared = cp["reqs"] if declare else None
    used = used_types(prob)
    why = fit(cd, cp["domain"], declared, used)
    before = canon.problem(prob)
    cp = {**cp, "init": untyped(cp["init"]), "goal": untyped(cp["goal"])}
    same({**cp, "reqs": declared or frozenset()}, before, "harness: problem as built")
    show = dict(problem=str(prob)[:3000], domain=str(dom)[:3000], mutation=what)

    # 1. the check
    got = attempt(lambda: prob.check(dom))
    verdict(ctx, "check", why, got, what, show)
    same(before, canon.problem(prob), "checking changed the problem")

    # 2. the constructor with the domain
    kw = dict(objects=prob.objects, init=prob.init, goal=prob.goal, metric=prob.metric)
    got = attempt(lambda: Problem(cp["name"], domain=dom, **kw))
    why2 = fit(cd, cd["name"], None, used)
    verdict(ctx, "constructor", why2, got, what, show)
    if got[0] == "ok":
        attached(got[1], dom, {**cp, "reqs": cd["reqs"], "domain": cd["name"]})

    # 3. redundant or missing arguments
    arguments(r, ctx, dom, cd, cp, kw, why2)

    # 4. the assignment
    got = attempt(lambda: setattr(prob, "domain", dom))
    why3 = fit(cd, cd["name"], declared, used)
    verdict(ctx, "setter", why3, got, what, show)
    if got[0] == "ok":
        attached(prob, dom, {**cp, "reqs": cd["reqs"], "domain": cd["name"]})
        other(r, ctx, b, g, prob, dom, cd, cp, declared, used)
    else:
        same(before, canon.problem(prob), "a refused domain left traces in the problem", **show)
        try:
            prob.domain
        except AssertionError:
            pass
        else:
            raise Violation("a refused domain stays attached", **show)

    # 5. only literals in the initial state
    if i % 3 == 0:
        literals(r, ctx, g, cp, dom if r.random() < 0.4 and why2 is None else None, kw)


def attempt(f):
    try:
        return "ok", f()
    except (PDDLValidationError, ValueError, AssertionError) as e:
        return "err", e


def verdict(ctx, route, why, got, what, show):
    ctx.seen(route, why, what, len(show["problem"]) // 40)
    if why:
        ctx.count(f"{route}_refused")
        ctx.count(f"{why}_refused")
        if got[0] == "ok":
            raise Violation(f"{route}: the problem does not fit the domain ({why}), yet it is accepted", **show)
        if not isinstance(got[1], PDDLValidationError):
            raise Violation(f"{route}: {type(got[1]).__name__} instead of a validation error ({why}): {got[1]}", **show)
    else:
        ctx.count(f"{route}_fits")
        if got[0] != "ok":
            raise Violation(f"{route}: the problem fits the domain, yet it is refused: {got[1]!r}", **show)
        if route == "check" and got[1] is not None:
            raise Violation(f"check returned {got[1]!r}")


def attached(prob, dom, want):
    if prob.domain is not dom:
        raise Violation("the domain of the problem is not the one given")
    same(want, canon.problem(prob), "problem attached to its domain")


def other(r, ctx, b, g, prob, dom, cd, cp, declared, used):
    """Replace an attached domain by another one: kept or refused as a whole."""
    cd2 = dict(cd)
    x = r.random()
    if x < 0.35:
        cd2["reqs"] = frozenset(q for q in cd["reqs"] if r.random() < 0.6) | (frozenset(["typing"]) if r.random() < 0.5 else frozenset())
    if x > 0.55:
        cd2["name"] = g.names(1)[0]
    elif x > 0.45:
        cd2["name"] = cd["name"].swapcase()
    if r.random() < 0.5:
        cd2["types"] = {k: v for k, v in cd["types"].items() if r.random() < 0.7}
    try:
        dom2 = b.domain(cd2)
    except PDDLError:
        return
    why = fit(cd2, cd2["name"], declared, used)
    before = canon.problem(prob)
    show = dict(problem=str(prob)[:3000], domain=str(dom2)[:3000])
    # checked against another domain than its own: the domain given decides
    ctx.count("checked_against_another")
    got = attempt(lambda: prob.check(dom2))
    verdict(ctx, "check", fit(cd2, cd["name"], declared, used), got, "another", show)
    same(before, canon.problem(prob), "checking against another domain left traces", **show)
    if prob.domain is not dom:
        raise Violation("checking against another domain replaced its own", **show)
    if r.random() < 0.5:
        ctx.count("attached_then_checked")
        mine = Problem(cp["name"], domain=dom, objects=prob.objects, init=prob.init, goal=prob.goal, metric=prob.metric)
        if cd["reqs"] <= cd2["reqs"]:
            got = attempt(lambda: mine.check(dom2))
            verdict(ctx, "check", fit(cd2, cd["name"], None, used), got, "another", show)
            attached(mine, dom, {**cp, "reqs": cd["reqs"], "domain": cd["name"]})
    got = attempt(lambda: setattr(prob, "domain", dom2))
    verdict(ctx, "setter", why, got, "second", show)
    if got[0] == "ok":
        attached(prob, dom2, {**cp, "reqs": cd2["reqs"], "domain": cd2["name"]})
    else:
        same(before, canon.problem(prob), "a refused second domain left traces", **show)
        if prob.domain is not dom:
            raise Violation("a refused second domain replaced the first", **show)


def arguments(r, ctx, dom, cd, cp, kw, why):
    def expect(exc, f, what):
        ctx.count("argument_errors")
        got = attempt(f)
        if got[0] == "ok" or not isinstance(got[1], exc):
            raise Violation(f"{what}: expected {exc.__name__}, got {got!r}"[:800])

    x = r.randrange(5)
    if x == 0:
        expect(ValueError, lambda: Problem(cp["name"], **kw), "neither a domain nor the name of one")
    elif x == 1:
        bad = cd["name"] + "x"
        expect(ValueError, lambda: Problem(cp["name"], domain=dom, domain_name=bad, **kw), "a domain and another name")
    elif x == 2:
        rs = set(dom.requirements) ^ {r.choice(list(Requirements))}
        expect(ValueError, lambda: Problem(cp["name"], domain=dom, requirements=rs, **kw), "a domain and other requirements")
    else:
        rs = list(dom.requirements)
        r.shuffle(rs)
        rs = r.choice([list, set, tuple])(rs + rs[:1])
        got = attempt(lambda: Problem(cp["name"], domain=dom, domain_name=cd["name"], requirements=rs, **kw))
        if (got[0] == "ok") != (why is None):
            raise Violation(f"domain with its own name and requirements: {got!r}"[:800])


def literals(r, ctx, g, cp, dom, kw):
    a, b2 = Predicate("p"), Predicate("q", Constant("o"))
    bad = [And(a, b2), Or(a, b2), And(), Or(), Imply(a, b2), Not(Not(a)), Not(And(a, b2)), When(a, b2)]
    f = r.choice(bad)
    init = list(kw["init"])
    init.insert(r.randrange(len(init) + 1), f)
    kw = {**kw, "init": init}
    ctx.count("non_literal_refused")
    got = attempt(lambda: Problem(cp["name"], domain=dom, domain_name=None if dom else "dd", **kw))
    if got[0] == "ok" or not isinstance(got[1], PDDLValidationError):
        raise Violation(f"a fact of the initial state that is no literal: {f}: {got!r}"[:800])


def typed_fact(r, c):
    """A fact or a condition with the given term somewhere, and where."""
    o = ("const", "ob2")
    fun = ("fun", "f", r.choice([(c,), (o, c), (c, o)]))
    p = ("pred", "p", r.choice([(c,), (o, c), (c, o), (o, o, c)]))
    one = ("num", lang.num("1"))
    x = r.randrange(9)
    if x == 0:
        return p, "/pred-i"
    if x == 1:
        return ("not", p), "/not-i"
    if x in (2, 3):
        return ("cmp", "=", (fun, one)), "/value-i"
    if x == 4:
        e = ("op", r.choice("+-*/"), r.choice([(fun, one), (one, fun)]))
        return ("cmp", r.choice(["<", "<=", "=", ">", ">="]), r.choice([(e, one), (one, e), (fun, one), (one, fun)])), "/cmp-g"
    if x == 5:
        return ("eq", *r.choice([(c, o), (o, c)])), "/eq-g"
    q = ("pred", "q", (o,))
    if x == 6:
        return lang.norm_nary("or", [q, ("not", p)]), "/or-g"
    if x == 7:
        return ("imply", *r.choice([(p, q), (q, p)])), "/imply-g"
    return ("exists", frozenset([("v", frozenset())]), lang.norm_nary("and", [("pred", "q", (("var", "v", frozenset()),)), p])), "/exists-g"


def untyped(f):
    if isinstance(f, tuple):
        if f[:1] == ("const",):
            return f[:2]
        if f[:1] in (("and",), ("or",)):
            return lang.norm_nary(f[0], [untyped(x) for x in f[1]])  # what differs in such a type only is equal
        return tuple(map(untyped, f))
    if isinstance(f, frozenset):
        return frozenset(map(untyped, f))
    return f


def mutate(r, g, cd, cp):
    what = r.choice(["name", "case", "req+", "req-dom", "type-obj", "type-goal", "type-drop", "typing-drop", "implied", "type-init", "type-fact", "type-fact", "type-twin"])
    if what == "name":
        n = cp["domain"]
        k = r.randrange(len(n))
        cp["domain"] = r.choice([
            n + "x", g.names(1)[0], n[:-1] or "q", n.translate({45: "_", 95: "-"}), n[:k] + n[k + 1 :], n[:k] + n[k] + n[k:], n[:k] + "-" + n[k:],
            n[:k] + r.choice("ab09-_") + n[k + 1 :], n + "-", n + "_", n + "0", n[: len(n) // 2], n[::-1],
        ])
        if not cp["domain"] or not cp["domain"][0].isalpha():
            cp["domain"] = "n" + cp["domain"]
        if "-" not in n and "_" not in n and r.random() < 0.3:
            cd["name"], cp["domain"] = r.sample([n + "-x", n + "_x", n + "x"], 2)
    elif what == "case":
        cp["domain"] = r.choice([cp["domain"].upper(), cp["domain"].lower(), cp["domain"].swapcase()])
    elif what == "req+":
        cp["reqs"] = cp["reqs"] | {r.choice(sorted(lang.REQS))}
    elif what == "implied":
        # what the domain's requirements imply is not declared by it
        more = lang.extend(cd["reqs"]) - cd["reqs"]
        if more:
            cp["reqs"] = cp["reqs"] | {r.choice(sorted(more))}
    elif what == "req-dom":
        cp["reqs"] = cd["reqs"]
        cd["reqs"] = frozenset(q for q in cd["reqs"] if r.random() < 0.8 or q in ("typing", "adl", "numeric-fluents", "fluents", "action-costs"))
    elif what == "type-obj":
        objs = sorted(cp["objects"], key=str)
        t = r.choice(["no-such-type", "no-such-type", "object", *r.sample(sorted(g.all_types), min(3, len(g.all_types)))])
        n = r.choice(objs)[0] if objs else "ob1"
        cp["objects"] = frozenset((m, y) for m, y in objs if m != n) | {(n, t)}
    elif what in ("type-goal", "type-init"):
        t = r.choice(["no-such-type", "no-such-type", "object", *r.sample(sorted(g.all_types), min(3, len(g.all_types)))])
        if what == "type-goal":
            q = ("pred", "p", (("var", "v", frozenset([t])),))
            if r.random() < 0.5:
                cp["goal"] = (r.choice(["forall", "exists"]), frozenset([("v", frozenset([t]))]), q)
            else:
                cp["goal"] = lang.norm_nary("and", [cp["goal"], ("not", ("exists", frozenset([("v", frozenset([t]))]), q))])
        else:
            cp["objects"] = cp["objects"] | {("zz-only", t)} if not any(n == "zz-only" for n, _ in cp["objects"]) else cp["objects"]
    elif what == "type-twin":
        # the goal, or a part of it, is an initial fact but for the type of a constant, or the other way round
        t = r.choice(["no-such-type", "no-such-type", *sorted(g.all_types)])
        facts = [f for f in sorted(cp["init"], key=str) if f[0] == "pred" and f[2]] + [("pred", "p", (("const", "ob1"),))]
        f = r.choice(facts)
        k = r.randrange(len(f[2]))
        twin = ("pred", f[1], f[2][:k] + (("const", f[2][k][1], t),) + f[2][k + 1 :])
        a, b = r.sample([f, twin], 2)
        cp["init"] = (cp["init"] - {f}) | {a}
        cp["goal"] = r.choice([b, ("not", b), lang.norm_nary("and", [cp["goal"], b]), lang.norm_nary("and", [b, ("not", f)]), lang.norm_nary("or", [("not", f), b])])
    elif what == "type-fact":
        # a constant with a type of its own, anywhere a term may be
        t = r.choice(["no-such-type", "no-such-type", "object", *sorted(g.all_types)])
        f, where = typed_fact(r, ("const", "ob1", t))
        what += where
        if where[-1] == "i":
            cp["init"] = cp["init"] | {f}
        else:
            cp["goal"] = lang.norm_nary("and", [cp["goal"], f])
    elif what == "type-drop":
        drop = [t for t in cd["types"] if r.random() < 0.4]
        cd["types"] = {k: v for k, v in cd["types"].items() if k not in drop}
    elif what == "typing-drop":
        cd["reqs"] = cd["reqs"] - {"typing", "adl"}
        cd["types"] = {k: None for k in cd["types"]}
        cd["constants"] = frozenset((n, None) for n, _ in cd["constants"])
        cd["preds"] = frozenset((n, tuple((v, frozenset()) for v, _ in vs)) for n, vs in cd["preds"])
        cd["funcs"] = frozenset((n, tuple((v, frozenset()) for v, _ in vs), t) for n, vs, t in cd["funcs"])
        cd["actions"] = frozenset()
        cd["derived"] = frozenset()
    if cp["domain"] in lang.RESERVED:
        cp["domain"] += "-d"
    return what


__all__ = ["PARSER"]
