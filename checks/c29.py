"""C29: what a refusal says is true: the missing requirement, the place and the culprit it names."""
import re

from lark.exceptions import UnexpectedInput

from checks import c01, c08
from vlib.h import Builder, KINDS, PARSER, TOKENS, gen, lang, mutate, parse, Violation
from pddl.action import Action
from pddl.core import Domain, Plan, Problem
from pddl.custom_types import parse_name, parse_type
from pddl.exceptions import PDDLMissingRequirementError
from pddl.logic.base import And, ExistsCondition, ForallCondition, Imply, Not, Or
from pddl.logic.effects import Forall, When
from pddl.logic.functions import EqualTo, GreaterThan, Metric, NumericFunction, NumericValue, Plus
from pddl.logic.helpers import constants, variables
from pddl.logic.predicates import DerivedPredicate, Predicate
from pddl.logic.terms import Constant, Variable
from pddl.requirements import Requirements

ID = "C29"
TECH = "fault-injection monitor: texts and objects with one known fault, the error raised confronted with the place and the name of the fault"
RULE = "one evaluation = one error examined against the fault injected; distinct = distinct (kind of fault, place, text)"
REQUIRE = [
    "foreign", "truncated", "surplus", "mutated", "positions", "other_layout", "cut_after", "requirements_named", "requirements_cured", "culprits", "cycles",
]
N = {"quick": 16000, "thorough": 160000}
FOREIGN = ["#", "%", "$", "!", "@x", "'", '"', "[", "{", ",", "&", "\x00", "\u00e9", "~", "|x|", "\\", "\u4e2d", "^"]


class St:
    pass


def cases(tier):
    return N[tier]


def setup():
    st = St()
    st.p = {k: PARSER[k]() for k in KINDS}
    return st


def case(i, st, ctx):
    r = ctx.rng(i)
    x = i % 5
    if x < 2:
        place(r, st, ctx)
    elif x == 2:
        requirement(r, st, ctx)
    elif x == 3:
        culprit_text(r, st, ctx)
    else:
        culprit_object(r, st, ctx)


# ---------------------------------------------------------------- where
def lay(toks, r, mode):
    """(text, where each token starts): the tokens, always apart."""
    out, starts, pos = [], [], 0
    for j, t in enumerate(toks):
        if j or r.random() < 0.5:
            g = " " if mode == "plain" else "\n" if mode == "lines" else lang._gap(r, mode)
            g = g if g[:1].isspace() or not j else " " + g
            out.append(g)
            pos += len(g)
        starts.append(pos)
        out.append(t)
        pos += len(t)
    if r.random() < 0.5:
        out.append(r.choice(["\n", " ", " ; end", "\n\n;x\n"]))
    return "".join(out), starts


def index_of(starts, toks, pos):
    for j in range(len(starts) - 1, -1, -1):
        if starts[j] <= pos:
            return j if pos < starts[j] + len(toks[j]) else None
    return None


def spot(e, laid, starts, toks, **show):
    """(index of the token, offset in it, is it the end), from an error whose line and column have been checked."""
    pos = e.pos_in_stream
    end = getattr(getattr(e, "token", None), "type", "") == "$END"
    if not isinstance(pos, int) or not 0 <= pos <= len(laid):
        raise Violation(f"the error gives the position {pos!r} in a text of {len(laid)} characters", **show)
    line, col = 1 + laid.count("\n", 0, pos), pos - laid.rfind("\n", 0, pos)
    if (e.line, e.column) != (line, col):
        raise Violation(f"the error gives line {e.line}, column {e.column} for the position {pos}, which is line {line}, column {col}", **show)
    said = [int(n) for n in re.findall(r"(?:line|col(?:umn)?) (\d+)", str(e))][:2]
    if said != [line, col]:
        raise Violation(f"the message says line, column {said}, the error stands in line {line}, column {col}: {str(e)[:300]}", **show)
    j = index_of(starts, toks, pos)
    if j is None:
        raise Violation(f"the position of the error ({pos}) is in no token", **show)
    return j, pos - starts[j], end


def place(r, st, ctx):
    k = r.choice(KINDS)
    g = gen.Gen(r, **c01.knobs(r))
    d = g.domain()
    toks = TOKENS[k](d if k == "domain" else g.problem(d) if k == "problem" else g.plan(d))
    if not toks:
        return
    what = r.choice(["foreign", "truncated", "surplus", "mutated", "mutated", "mutated"])
    good = toks
    if what == "foreign":
        at = r.randrange(len(toks) + 1)
        toks = toks[:at] + [r.choice(FOREIGN)] + toks[at:]
    elif what == "truncated":
        toks = toks[:r.randrange(1, len(toks))]
        at = len(toks) - 1
        if k == "plan" and toks[-1] == ")":
            return
    elif what == "surplus":
        at = len(toks)
        toks = toks + [r.choice([")", ")", ")", "x", "?x", "-"])]
    else:
        toks = mutate(toks, r)
        at = next((j for j, (a, b) in enumerate(zip(good, toks)) if a != b), min(len(good), len(toks)))
        if not toks or toks == good:
            return
    mode = r.choice(["plain", "lines", "wild", "comments"])
    text, starts = lay(toks, r, mode)
    got, e = parse(st.p[k], text)
    ctx.count(what)
    ctx.seen(what, k, text)
    show = dict(kind=k, what=what, text=text[:4000], error=f"{type(e).__name__}: {e}"[:600])
    if what != "mutated" and not isinstance(e, UnexpectedInput):
        raise Violation(f"{what}: a {k} with a fault of form only gives {got} {type(e).__name__}: it should say where it is", **show)
    if got == "ok" or not isinstance(e, UnexpectedInput):
        return
    ctx.count("positions")
    j, off, end = spot(e, text, starts, toks, **show)
    if what == "foreign" and (j, off, end) != (at, 0, False):
        raise Violation(f"the foreign character is token {at}, the error points to token {j}+{off}", **show)
    if what == "surplus" and (j, end) != (at, False):
        raise Violation(f"the surplus is token {at}, the error points to token {j}", **show)
    if what == "truncated" and not (end and j == at):
        raise Violation(f"the text ends after token {at}, the error points to token {j} (the end: {end})", **show)
    if j < at and not (end and j == len(toks) - 1):
        raise Violation(f"the text is right up to token {at}, the error points to token {j}", **show)
    if not end:
        # the first token that cannot go on: nothing behind it matters
        ctx.count("cut_after")
        cut = text[:starts[j] + len(toks[j])] + r.choice(["", "\n", " )", " ( x", " #"])
        got2, e2 = parse(st.p[k], cut)
        if got2 == "ok" or not isinstance(e2, UnexpectedInput) or (e2.line, e2.column) != (e.line, e.column):
            raise Violation(f"what follows the faulty token changes where the error is: {got2} {type(e2).__name__} {e2}"[:600], cut=cut[-300:], **show)
    text2, starts2 = lay(toks, r, r.choice(["plain", "lines", "wild"]))
    got2, e2 = parse(st.p[k], text2)
    ctx.count("other_layout")
    if got2 == "ok" or type(e2) is not type(e) or spot(e2, text2, starts2, toks, **show) != (j, off, end):
        raise Violation(f"in another layout the error is elsewhere: {got2} {type(e2).__name__} {e2}"[:600], other=text2[:3000], **show)


# ---------------------------------------------------------------- what requirement
def named_requirement(e):
    if isinstance(e, PDDLMissingRequirementError):
        if not isinstance(e.requirement, Requirements):
            raise Violation(f"the error names no requirement: {e.requirement!r}")
        if e.requirement.value not in str(e):
            raise Violation(f"the message does not name the requirement {e.requirement}: {e}")
        return e.requirement.value
    m = re.match(r"([a-z]+(?:[ -][a-z]+)?) requirement is not specified", str(e))
    if m:
        return m.group(1).replace(" ", "-")
    # in other words
    said = str(e).lower()
    return max((q for q in lang.REQS if re.search(rf"\b{q}\b", said) or re.search(rf"\b{q.replace('-', ' ')}\b", said)), key=len, default=None)


def requirement(r, st, ctx):
    if r.random() < 0.5:
        feats = r.sample(sorted(c08.GRANTS), r.choice([1, 1, 2, 3, 5]))
        d = c08.build(feats, r)
        d = d[0] if isinstance(d, tuple) else d
        d["reqs"] = None
    else:
        d = gen.Gen(r, **c01.knobs(r)).domain()
    full = lang.plain(lang.tokens_domain(dict(d, reqs=sorted(lang.REQS))))
    if parse(st.p["domain"], full)[0] != "ok":
        return
    reqs = [q for q in d["reqs"] or [] if r.random() < 0.3]
    built = r.random() < 0.3
    asked = []
    while True:
        text = lang.plain(lang.tokens_domain(dict(d, reqs=reqs or None)))
        got, e = parse(st.p["domain"], text)
        if got == "ok":
            break
        q = named_requirement(e)
        show = dict(text=text[:4000], asked=asked, error=f"{type(e).__name__}: {e}"[:500])
        if q is None:
            raise Violation("with every requirement the domain is accepted; without some, the error names none of them", **show)
        if q not in lang.REQS or q in lang.extend(reqs):
            raise Violation(f"the requirement {q!r} is said to be missing, yet it is declared, implied or none", **show)
        ctx.count("requirements_named")
        ctx.seen("requirement", q, text)
        asked.append(q)
        reqs = reqs + [q]
    if asked:
        ctx.count("requirements_cured")
        # what was asked for was needed: without the last one the domain is refused again, and it alone is named
        rest = [q for q in reqs if q != asked[-1]]
        if asked[-1] not in lang.extend(rest):
            got, e = parse(st.p["domain"], lang.plain(lang.tokens_domain(dict(d, reqs=rest or None))))
            if got == "ok":
                raise Violation(f"the requirement {asked[-1]!r} was said to be missing, yet the domain does without it", text=text[:4000])
    if built and asked:
        # constructors
        c = lang.canon_domain(dict(d, reqs=reqs))
        less = frozenset(reqs) - {"typing", "adl", "action-costs", "numeric-fluents", "fluents"}
        try:
            Builder(r).domain(dict(c, reqs=less))
        except Exception as e:  # noqa: B902
            q = named_requirement(e)
            if q is None or q in lang.extend(less):
                raise Violation(f"constructor: the error names no missing requirement: {e}", requirements=sorted(less))


# ---------------------------------------------------------------- which name
def says(ctx, e, names, what, **show):
    ctx.count("culprits")
    ctx.seen("culprit", what, tuple(names), str(show)[:3000])
    miss = [n for n in names if not re.search(r"(?<![A-Za-z0-9_-])" + re.escape(n) + r"(?![A-Za-z0-9_-])", str(e))]
    if miss:
        raise Violation(f"{what}: the error does not name {miss}: {type(e).__name__}: {e}"[:900], **show)


def fresh(r):
    long = "y" * r.choice([40, 100, 300]) if r.random() < 0.1 else ""
    return long + r.choice(["zq", "Zq", "z"]) + r.choice(["", "-", "_"]) + "q" + str(r.randrange(10 ** r.choice([1, 5, 12])))


def culprit_text(r, st, ctx):
    g = gen.Gen(r, **c01.knobs(r))
    d = g.domain()
    d["reqs"] = sorted(set(lang.REQS))
    if parse(st.p["domain"], lang.plain(lang.tokens_domain(d)))[0] != "ok":
        return
    c, a = fresh(r), fresh(r) + "-other"
    ty = r.choice([("t", c), ("either", [c]), ("either", ["object", c])])
    x = ("atom", "pp-q", [("v", "x")])
    d["preds"] = (d["preds"] or []) + [("pp-q", [(["x"], None)])]
    at = r.randrange(len(d["structs"]) + 1)
    what = r.choice([
        "predicate", "parameter", "quantifier", "effect-quantifier", "constant-type", "head", "undefined-constant", "undefined-predicate", "arity", "head-type",
        "twice", "type-in-union", "two-typings", "cycle",
    ])
    want = [c]

    def add(*s):
        d["structs"].insert(at, s)
    if what == "predicate":
        d["preds"].insert(r.randrange(len(d["preds"]) + 1), (a, [(["x", "y"], ty)]))
    elif what == "parameter":
        add("action", a, [(["x"], ty)], r.choice([None, x]), None)
    elif what == "quantifier":
        q = (r.choice(["forall", "exists"]), [(["x"], ty)], x)
        add("action", a, [(["y"], None)], r.choice([q, ("and", [("not", q)]), ("or", [x, q]), ("imply", q, x)]), None)
    elif what == "effect-quantifier":
        q = ("forall", [(["x"], ty)], r.choice([x, ("when", x, x)]))
        add("action", a, [(["y"], None)], None, r.choice([q, ("and", [x, q]), ("forall", [(["z"], None)], q)]))
    elif what == "constant-type":
        d["constants"] = (d["constants"] or []) + [([a], c)]
        # (a list of names without types before it would take this type)
        d["constants"] = [grp for grp in d["constants"] if grp[1] is not None]
        if parse(st.p["domain"], lang.plain(lang.tokens_domain(dict(d, constants=d["constants"][:-1]))))[0] != "ok":
            return
    elif what == "head":
        add("derived", "pp-q", [(["x"], ty)], x)
    elif what == "undefined-constant":
        f = ("atom", "pp-q", [("c", c)])
        add("action", a, [(["y"], None)], *r.choice([(f, None), (None, f), (("and", [("not", f)]), x), (None, ("when", f, x))]))
    elif what == "undefined-predicate":
        add("derived", c, [(["x"], None)], x)
    elif what == "arity":
        d["preds"].append((c, [(["x", "y"], None)]))
        add("derived", c, [(r.choice([["x"], ["x", "y", "z"]]), None)], x)
    elif what == "head-type":
        first, last = "aa-" + c, "zzz-" + c
        d["types"] = (d["types"] or []) if d["types"] and all(grp[1] is not None for grp in d["types"]) else []
        base = dict(d, types=[*d["types"], ([c, a, first, last], "object"), ([first + "-0", last + "-0"], a)], structs=[], constants=None)
        n = r.randrange(3)
        lead = [f"x{j}" for j in range(n)]
        fits = r.choice([("t", a), ("either", [a, first]), ("either", [last, a, first])])
        base["preds"] = [(c + "-p", [(lead, None), (["x"], fits)] if n else [(["x"], fits)])]
        tags = [c, *r.sample([a, first + "-0", last + "-0", *types_in(fits)], r.randrange(3))]
        tags = r.sample(sorted(set(tags)), len(set(tags)))
        d = base
        d["structs"] = [("derived", c + "-p", [(lead, None)] * bool(n) + [(["x"], ("either", tags) if len(tags) > 1 else ("t", c))], ("and", []))]
        want = [c, a, c + "-p"]
    elif what == "twice":
        sec = r.choice(["constants", "types"])
        some = [f"{c}-n{j}" for j in range(r.choice([0, 1, 5, 80]))]
        d[sec] = [(r.choice([[c, a, c], [a, c, *some, c], [*some, c, c, a], [c, *some, c]]), "object")] + (d[sec] or [])
    elif what == "type-in-union":
        some = [f"{c}-n{j}" for j in range(r.choice([0, 0, 1, 5, 80]))]
        d["types"] = [(some, "object")] * bool(some) + (d["types"] or [])
        tags = r.choice([[c], [*some, c], [c, *some]])
        add("action", a, [*(([f"v{j}"], None) for j in range(len(some))), (["x"], ("either", tags))], x, None)
    elif what == "two-typings":
        d["types"] = [([c + "1", c + "2"], "object")] + (d["types"] or [])
        add("action", a, [([c], ("t", c + "1")), (["y"], None), ([c], ("t", c + "2"))][::r.choice([1, 2])], x, None)
    elif what == "cycle":
        n = r.choice([1, 2, 3, 6])
        ring = [f"{c}-{j}" for j in range(n)]
        lead = [f"{a}-{j}" for j in range(r.choice([0, 0, 1, 3]))]
        par = [([ring[j]], ring[(j + 1) % n]) for j in range(n)] + [([t], r.choice(ring + lead[:j])) for j, t in enumerate(lead)]
        r.shuffle(par)
        d["types"] = par + (d["types"] or [])
        want = ring
    text = lang.plain(lang.tokens_domain(d))
    got, e = parse(st.p["domain"], text)
    if got == "ok" or isinstance(e, UnexpectedInput):
        raise Violation(f"{what}: the fault gives {got} {type(e).__name__}", text=text[:4000], culprit=c)
    says(ctx, e, want, what, text=text[:4000])
    if what == "cycle":
        cycle_named(ctx, e, ring, lead, text[:4000])


def types_in(ty):
    return [ty[1]] if ty[0] == "t" else ty[1]


def cycle_named(ctx, e, ring, lead, show):
    ctx.count("cycles")
    named = [t for t in re.findall(r"[A-Za-z][A-Za-z0-9_-]*[A-Za-z0-9_]", str(e)) if t in ring or t in lead]
    named = named[:-1] if len(named) > 1 and named[0] == named[-1] else named
    n = len(ring)
    if len(named) != n or any(ring[(ring.index(t) + 1) % n] != named[(j + 1) % n] if t in ring else True for j, t in enumerate(named)):
        raise Violation(f"what is named is not the cycle: {e}"[:600], ring=ring, it=show)


def culprit_object(r, st, ctx):
    c = fresh(r)
    T = [Requirements.TYPING, Requirements.FLUENTS]
    v, k = Variable("x", [c] if r.random() < 0.5 else [c, "object"]), Constant("k", c)
    p = Predicate("p", Variable("y"))

    def wrap(f):
        for _ in range(r.randrange(3)):
            f = r.choice([
                lambda f: And(f, p), lambda f: Or(p, f), lambda f: Not(f), lambda f: Imply(p, f), lambda f: ForallCondition(f, [Variable("z")]),
                lambda f: ExistsCondition(And(p, f), [Variable("z")]),
            ])(f)
        return f
    typed = [lambda: Predicate("q", v), lambda: Predicate("q", Variable("z"), k), lambda: ForallCondition(p, [v]), lambda: GreaterThan(NumericFunction("f", k), NumericValue(1))]
    what = r.choice([
        "domain", "problem", "step", "steps-object", "steps-number", "unfold", "keyword", "word", "twice", "either-typing", "untyped", "cycle", "supertype",
    ])
    want = [c]
    acts = [Action("a-1", [Variable("x")]), Action("a-2", [Variable("x"), Variable("y")])]
    dom = Domain("d", T, actions=acts)
    prob = Problem("pr", domain=dom, objects=[Constant("o"), Constant("o2")])
    steps = [("a-1", [Constant("o")]), ("a-2", [Constant("o2"), Constant("o")]), ("a-2", [Constant("o"), Constant("o")])]
    at = r.randrange(4)

    def wrong(step):
        return Plan(steps[:at] + [step] + steps[at:])
    if what == "domain":
        f = r.choice([
            lambda: dict(predicates=[Predicate("q", v), p]), lambda: dict(constants=[Constant("o"), k]), lambda: dict(functions={NumericFunction("f", v): None}),
            lambda: dict(actions=[Action("a", [v], p)]), lambda: dict(actions=[Action("a", [], wrap(r.choice(typed)()))]),
            lambda: dict(actions=[Action("a", [], None, r.choice([And, lambda x: And(x, p)])(r.choice([Forall(p, [v]), When(typed[0](), p), When(p, typed[1]())])))]),
            lambda: dict(derived_predicates=[DerivedPredicate(p, wrap(r.choice(typed)()))]),
        ])
        do = lambda: Domain("d", T, types={"t": None}, **f())  # noqa: E731
    elif what == "problem":
        f = r.choice([
            lambda: dict(objects=[Constant("o"), k]), lambda: dict(init=[Predicate("q", k), p]), lambda: dict(goal=wrap(r.choice(typed)())),
            lambda: dict(init=[EqualTo(NumericFunction("f", k), NumericValue(2))]),
        ])
        do = lambda: r.choice([  # noqa: E731
            lambda a: Problem("pp", domain=dom, **a), lambda a: Problem("pp", domain_name="d", **a).check(dom),
            lambda a: setattr(Problem("pp", domain_name="d", **a), "domain", dom)])(f())
    elif what == "step":
        do = lambda: wrong((c, [Constant("o")])).check(dom, prob)  # noqa: E731
    elif what == "steps-object":
        n = r.choice([1, 2, 3, 5, 9])
        m = r.randrange(n)
        dom = Domain("d", T, actions=acts + [Action("a-n", [Variable(f"x{j}") for j in range(n)])])
        want = [c, "a-n"]
        do = lambda: wrong(("a-n", [Constant(c if j == m else "o") for j in range(n)])).check(dom, prob)  # noqa: E731
    elif what == "steps-number":
        want = [c, "a-1"]
        n = r.choice([1, 2, 6])
        do = lambda: wrong(("a-1", [Constant("o")] * n + [Constant(c)])).check(dom, prob)  # noqa: E731
    elif what == "unfold":
        do = lambda: wrong((c, [Constant("o")])).instantiate(dom)  # noqa: E731
    elif what == "keyword":
        c = r.choice(["and", "when", "define", "scale-up", "either"])
        want = [c]
        do = lambda: r.choice([  # noqa: E731
            parse_name, parse_type, Variable, Constant, Predicate, NumericFunction, constants, variables, Domain, lambda n: Variable("x", [n]), lambda n: Constant("k", n),
            lambda n: Action(n, []), lambda n: Problem(n, domain_name="d"), lambda n: Plan([(n, [])]), lambda n: Domain("d", T, types={n: None}),
        ])(c)
    elif what == "word":
        bad = r.choice(["1", "-", "_", "+"]) + c
        want = [bad.lstrip("+-_1")] if bad[0] in "+" else [bad]
        do = lambda: r.choice([parse_name, parse_type, Variable, Constant, Predicate, Domain, lambda n: Variable("x", [n])])(bad)  # noqa: E731
    elif what == "twice":
        do = lambda: Variable("x", [c, "t", c])  # noqa: E731
    elif what == "either-typing":
        do = lambda: Predicate("p", Variable(c, ["t"]), Variable("y"), Variable(c, ["u"]))  # noqa: E731
    elif what == "untyped":
        do = lambda: Domain("d", r.choice([None, [Requirements.STRIPS]]), **r.choice([  # noqa: E731
            dict(predicates=[Predicate("q", v)]), dict(types={"u": c}), dict(constants=[k]), dict(actions=[Action("a", [v])])]))
    elif what == "supertype":
        do = lambda: Domain("d", T, types={"u": None, "object": c})  # noqa: E731
    else:
        n = r.choice([1, 2, 3, 7])
        ring = [f"{c}-{j}" for j in range(n)]
        types = {t: ring[(j + 1) % n] for j, t in enumerate(ring)}
        lead = [f"lead-{j}" for j in range(r.choice([0, 1, 4]))]
        types.update({t: r.choice(ring + lead[:j]) for j, t in enumerate(lead)})
        items = list(types.items())
        r.shuffle(items)
        want = ring
        do = lambda: Domain("d", T, types=dict(items))  # noqa: E731
    try:
        do()
    except Exception as e:  # noqa: B902
        says(ctx, e, want, f"object: {what}", at=at)
        if what == "cycle":
            cycle_named(ctx, e, ring, lead, items)
    else:
        raise Violation(f"object: {what}: the fault is not noticed", culprit=c)


__all__ = ["Metric", "Plus"]
