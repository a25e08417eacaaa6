"""C26: constructions: what is given is what is kept; short forms are the long forms; malformed ones are refused."""
from fractions import Fraction

from checks import c01
from vlib.h import Builder, OBJ, SURF, canon, full, gen, lang, same, Violation
from vlib import vary
from pddl import formatter
from pddl.action import Action
from pddl.core import Domain, Plan, Problem
from pddl.logic import functions as F
from pddl.logic.base import And, ExistsCondition, ForallCondition, Imply, Not, OneOf, Or, ensure_formula, is_literal
from pddl.logic.effects import Forall, When
from pddl.logic.helpers import constants, variables
from pddl.logic.predicates import DerivedPredicate, EqualTo, Predicate
from pddl.logic.terms import Constant, Variable
from pddl.requirements import Requirements

ID = "C26"
TECH = "reference-model monitor: accessors of constructed objects against what was given; short forms against long forms"
RULE = "one evaluation = one construction whose accessors are compared with its arguments, or which must be refused; distinct = distinct (construction, content)"
REQUIRE = ["documents", "omitted", "operators", "flattened", "applied", "split", "retyped", "literals", "refused", "numbers"]
N = {"quick": 12000, "thorough": 200000}
ATOMS = ("pred", "eq", "cmp")
BLANKS = [" ", "  ", "\t", "\n", " \n ", "\r\n"]


class St:
    pass


def cases(tier):
    return N[tier]


def setup():
    return St()


def case(i, st, ctx):
    r = ctx.rng(i)
    g = gen.Gen(r, **c01.knobs(r))
    d = g.domain()
    p = g.problem(d)
    b = Builder(r)
    c, cp = lang.canon_domain(d), lang.canon_problem(p)
    documents(r, ctx, b, c, cp, SURF["plan"](g.plan(d)))
    conds = [x for a in c["actions"] for x in (a[2],) if x is not None] + [x[2] for x in c["derived"]] + [cp["goal"]]
    pieces = [x for f in conds for _, x in vary.nodes(f) if x and x[0] in KINDS_OF_CONDITION]
    if pieces:
        operators(r, ctx, b, [r.choice(pieces) for _ in range(5)])
        literals(r, ctx, b, pieces)
    atoms = [x for x in pieces if x[0] == "pred"]
    apply_(r, ctx, b, atoms, g)
    names(r, ctx, g)
    numbers(r, ctx, b)


KINDS_OF_CONDITION = {"pred", "eq", "and", "or", "not", "imply", "forall", "exists"}


# ---------------------------------------------------------------- documents
def documents(r, ctx, b, c, cp, cplan):
    ctx.count("documents")
    dom = b.domain(c)
    ctx.seen("domain", sorted(map(str, c.items())))
    same(c, OBJ["domain"](dom), "the domain constructed")
    prob = b.problem(cp)
    same(cp, OBJ["problem"](prob), "the problem constructed")
    plan = b.plan(cplan)
    same(cplan, OBJ["plan"](plan), "the plan constructed")
    steps = [(n, [Constant(t, r.choice([None, "t1", "object"])) for t in args]) for n, args in cplan]
    same(tuple((n, tuple(map(full, args))) for n, args in steps), full(Plan(steps)), "the plan constructed of typed constants")
    for x, f in ((dom, formatter.domain_to_string), (prob, formatter.problem_to_string), (plan, formatter.plan_to_string)):
        if f(x) != str(x):
            raise Violation("the formatter and str print two things", it=str(x)[:3000], formatter=f(x)[:3000])
    for a in dom.actions:
        if tuple(a.terms) != tuple(a.parameters):
            raise Violation("the terms of an action are not its parameters", it=str(a)[:3000])
    # parts left out are empty parts
    ctx.count("omitted")
    empty = Domain("d")
    same(
        {"name": "d", "reqs": frozenset(), "types": {}, "constants": frozenset(), "preds": frozenset(), "funcs": frozenset(),
         "actions": frozenset(), "derived": frozenset()}, OBJ["domain"](empty), "a domain of which only the name is given")
    keep = {k for k in ("objects", "init", "goal", "metric") if r.random() < 0.5}
    kw = {}
    want = dict(cp, objects=frozenset(), init=frozenset(), goal=("and", ()), metric=None, reqs=frozenset())
    for k in keep:
        want[k] = cp[k]
    if "objects" in keep:
        kw["objects"] = [Constant(n, t) for n, t in cp["objects"]]
    if "init" in keep:
        kw["init"] = [b.formula(f) for f in cp["init"]]
    if "goal" in keep:
        kw["goal"] = b.formula(cp["goal"])
    if "metric" in keep:
        kw["metric"] = b.metric(cp["metric"])
    part = Problem(cp["name"], domain_name=cp["domain"], **kw)
    got = OBJ["problem"](part)
    same(want, got, f"a problem of which only {sorted(keep)} are given")
    try:
        part.domain
    except AssertionError:
        pass
    else:
        raise Violation("a problem without a domain gives one out", it=repr(part.domain)[:500])
    # a domain and what must agree with it
    other = r.choice([swapped(c["name"]), c["name"] + "x", "x" + c["name"], c["name"] + "-"])
    refused(ctx, lambda: Problem(cp["name"], domain=dom, domain_name=other), ValueError, f"domain {c['name']} with domain name {other}")
    refused(ctx, lambda: Problem(cp["name"]), ValueError, "a problem with neither a domain nor a domain name")
    rs = set(dom.requirements)
    wrong = rs ^ {r.choice(sorted(Requirements))}
    refused(ctx, lambda: Problem(cp["name"], domain=dom, requirements=r.choice([set, list, tuple])(wrong)), ValueError, "requirements other than those of the domain")
    both = Problem(cp["name"], domain=dom, domain_name=c["name"], requirements=r.choice([set, list, tuple, frozenset])(rs))
    if both.domain is not dom and both.domain != dom or both.domain_name != c["name"] or set(both.requirements) != rs:
        raise Violation("a problem does not keep its domain", it=str(both)[:1000], domain=str(dom)[:2000])
    ctx.count("domain_and_name")
    act = Action("a", [])
    if act.precondition is not None or act.effect is not None or tuple(act.parameters):
        raise Violation("an action of which only the name is given has more", it=str(act))
    m = b.metric(cp["metric"])
    if m is not None:
        if F.Metric(m.expression).optimization != "minimize" or F.Metric(m.expression).expression != m.expression:
            raise Violation("a metric is not a minimisation by default", it=str(m))
        if F.Metric(m.expression, "maximize").optimization != "maximize":
            raise Violation("a metric forgets that it maximises", it=str(m))
        for bad in ("", "max", "Maximize", "minimise", None, "maximize "):
            refused(ctx, lambda: F.Metric(m.expression, bad), AssertionError, f"a metric with optimisation {bad!r}")


def swapped(n):
    m = n.swapcase()
    return m if m not in lang.RESERVED and m != n else n + "2"


def refused(ctx, f, exc, what):
    ctx.count("refused")
    try:
        x = f()
    except exc:
        return
    except Exception as e:
        raise Violation(f"{what}: {type(e).__name__} instead of a refusal: {str(e)[:300]}")
    raise Violation(f"{what} is accepted: {str(x)[:300]}")


# ---------------------------------------------------------------- connectives
def operators(r, ctx, b, fs):
    x, y, z = (b.formula(f) for f in fs[:3])
    cx, cy, cz = (canon.formula(v) for v in (x, y, z))
    ctx.count("operators")
    ctx.seen("operators", cx, cy)
    for name, got, want in (
        ("&", x & y, ("and", (cx, cy))), ("|", x | y, ("or", (cx, cy))), ("~", ~x, ("not", cx)), (">>", x >> y, ("or", (("not", cx), cy))),
        ("& &", x & y & z, ("and", (cx, cy, cz))), ("| |", x | y | z, ("or", (cx, cy, cz))), ("& (|)", x & (y | z), ("and", (cx, ("or", (cy, cz))))),
        ("~(&)", ~(x & y), ("not", ("and", (cx, cy)))),
    ):
        same(deep(want), canon.formula(got), f"operator {name}", x=str(x)[:1500], y=str(y)[:1500])
    for name, short, long in (("&", x & y, And(x, y)), ("|", x | y, Or(x, y)), ("~", ~x, Not(x)), (">>", x >> y, Or(Not(x), y))):
        if short != long or type(short) is not type(long):
            raise Violation(f"operator {name} is not the connective", short=repr(short)[:1500], long=repr(long)[:1500])
    for cls, args in ((Imply, [x, y]), (OneOf, [x, y, x]), (OneOf, [])):
        got = cls(*args)
        if list(map(full, got.operands)) != list(map(full, args)):
            raise Violation(f"{cls.__name__} does not keep its operands", it=repr(got)[:2000])
    if full(Not(x).argument) != cx:
        raise Violation("a negation does not keep its argument")
    w = When(x, y)
    if w.condition != x or w.effect != y:
        raise Violation("a conditional effect does not keep its parts", it=repr(w)[:2000])
    vs = variables("v1 v2 v3")[: r.randrange(4)]
    for cls, part in ((ForallCondition, "condition"), (ExistsCondition, "condition"), (Forall, "effect")):
        q = cls(x, r.choice([list, tuple, set, frozenset])(vs))
        if getattr(q, part) != x or set(q.variables) != set(vs) or len(q.variables) != len(vs):
            raise Violation(f"{cls.__name__} does not keep its parts", it=repr(q)[:2000])
        if getattr(cls(x), part) != x or len(cls(x).variables):
            raise Violation(f"{cls.__name__} without variables does not keep its parts", it=repr(cls(x))[:2000])
    # conjunctions and disjunctions: flat, each operand once, in the order of first occurrence
    for cls, k in ((And, "and"), (Or, "or")):
        tree = [(r.choice(fs[:r.choice([1, 2, 5])]) if r.random() < 0.7 else [r.choice(fs) for _ in range(r.randrange(4))]) for _ in range(r.randrange(6))]
        got = cls(*[cls(*map(b.formula, t)) if isinstance(t, list) else b.formula(t) for t in tree])
        flat = []

        def walk(f):
            if isinstance(f, tuple) and f[0] == k:
                for o in f[1]:
                    walk(o)
            elif f not in flat:
                flat.append(f)

        for t in tree:
            for f in t if isinstance(t, list) else [t]:
                walk(canon.formula(b.formula(f)))
        ctx.count("flattened")
        ctx.seen("flat", k, tuple(flat))
        ops = [got] if len(flat) == 1 else list(got.operands) if isinstance(got, cls) else None
        if ops is None or [canon.formula(o) for o in ops] != flat:
            raise Violation(f"{k}: operands {[str(o)[:200] for o in ops or [got]]} instead of {flat}"[:2500])
    if ensure_formula(None, True) != And() or ensure_formula(None, False) != Or() or ensure_formula(x, True) != x or ensure_formula(x, False) != x:
        raise Violation("ensure_formula: a missing formula is not the empty one, or a given one is not kept")


def deep(f):
    """Normalised as constructors do."""
    if f[0] in ("and", "or"):
        return lang.norm_nary(f[0], [deep(x) for x in f[1]])
    if f[0] == "not":
        return ("not", deep(f[1]))
    return f


def literals(r, ctx, b, pieces):
    for f in r.sample(pieces, min(6, len(pieces))):
        for want, x in ((f, b.formula(f)), (("not", f), Not(b.formula(f)))):
            ctx.count("literals")
            lit = want[0] in ATOMS or (want[0] == "not" and want[1][0] in ATOMS)
            if is_literal(x) is not lit:
                raise Violation(f"is_literal gives {not lit} for {str(x)[:1500]}")


# ---------------------------------------------------------------- applying
def apply_(r, ctx, b, atoms, g):
    def term():
        n = r.choice(["x", "y", "z", "k1", "k2"])
        return b.term(("var", n, frozenset())) if r.random() < 0.5 else b.term(("const", n, None))

    def tagged():
        n = g.name()
        if r.random() < 0.4:
            return b.term(("const", n, r.choice([None, "t", "u"])))
        return b.term(("var", n, frozenset(r.sample(["t", "u", "w"], r.randrange(3)))))

    for _ in range(3):
        ts = [tagged() for _ in range(r.choice([0, 1, 2, 2, 3, 5]))]
        if len({t.name for t in ts}) < len(ts):
            continue
        name = g.name()
        for cls in (Predicate, F.NumericFunction):
            p = cls(name, *ts)
            ctx.count("applied")
            ctx.seen("apply", cls.__name__, name, tuple(canon.term(t, True) for t in ts))
            if p.arity != len(ts) or [canon.term(t, True) for t in p.terms] != [canon.term(t, True) for t in ts] or p.name != name:
                raise Violation(f"{cls.__name__} does not keep its parts", it=repr(p))
            before = full(p)
            if cls is Predicate:
                us = [term() for _ in ts]
            else:
                us = [type(t)(f"n{k}", *([t.type_tags] if isinstance(t, Variable) else [t.type_tag])) for k, t in enumerate(ts)]
            q = p(*us)
            if type(q) is not cls or q.name != name or tuple(q.terms) != tuple(us) or q != cls(name, *us):
                raise Violation(f"applying a {cls.__name__} to other terms gives {q!r}", it=repr(p), terms=repr(us))
            if full(p) != before:
                raise Violation(f"applying a {cls.__name__} changes it", it=repr(p))
            refused(ctx, lambda: p(*us, Constant("more")), AssertionError, f"{p} applied to one term too many")
            if us:
                refused(ctx, lambda: p(*us[:-1]), AssertionError, f"{p} applied to one term too few")
            if us and cls is not Predicate:
                k = r.randrange(len(us))
                wrong = list(us)
                wrong[k] = Variable("w", set(us[k].type_tags) ^ {"other"})
                refused(ctx, lambda: p(*wrong), AssertionError, f"{p} applied to a term of other types")
    # one variable, two typings
    n = g.name()
    t1, t2 = set(r.sample(["t", "u", "w"], r.randrange(3))), set(r.sample(["t", "u", "w"], r.randrange(3)))
    vs = [Variable(n, t1), Variable(n, t2)]
    r.shuffle(vs)
    between = [Constant(n), Variable(n + "-")][: r.randrange(3)]
    for what, f in (
        ("predicate", lambda: Predicate("p", vs[0], *between, vs[1])), ("equality", lambda: EqualTo(*vs)),
    ):
        if t1 != t2:
            refused(ctx, f, ValueError, f"a {what} with a variable of two typings")
        else:
            f()
    e = EqualTo(vs[0], Constant(n))
    if e.left != vs[0] or e.right != Constant(n):
        raise Violation("an equality does not keep its sides", it=repr(e))
    dp = DerivedPredicate(Predicate("p", vs[0]), e)
    if dp.predicate != Predicate("p", vs[0]) or dp.condition != e:
        raise Violation("a derived predicate does not keep its parts", it=repr(dp))


# ---------------------------------------------------------------- names
def names(r, ctx, g):
    ns = [g.name() for _ in range(r.randrange(6))]
    text = r.choice(["", " ", "\n"]) + "".join(n + r.choice(BLANKS) for n in ns) + r.choice(["", "\t"])
    types = r.choice([None, [], ["t"], ["t", "u"], {"t", "u", "w"}, ("w",)])
    ctx.count("split")
    ctx.seen("split", text, str(types))
    want = [("var", n, frozenset(types or ())) for n in ns]
    got = variables(text, types) if types is not None or r.random() < 0.5 else variables(text)
    if [canon.term(v) for v in got] != want or not isinstance(got, list):
        raise Violation(f"variables({text!r}, {types!r}) gives {got!r}")
    t = r.choice([None, "t", "object"])
    got = constants(text, t) if t is not None or r.random() < 0.5 else constants(text)
    if [canon.term(v, True) for v in got] != [("const", n, t) for n in ns] or not isinstance(got, list):
        raise Violation(f"constants({text!r}, {t!r}) gives {got!r}")
    # what is no list of names is refused as a whole
    bad = r.choice(ns or ["a"]) + r.choice(["?x", "?", ",b", "-?b", ".", ";c", "(d)", ":e", "+", "\u00e9", "\u2028?", "'", '"', "=", "/", "\\", "\0", "@b", "|", "#"])
    bad = r.choice([bad, f"a {bad}", f"{bad} a", bad[::-1] if not bad[::-1].replace("-", "").replace("_", "").isalnum() else bad])
    refused(ctx, lambda: variables(bad), ValueError, f"variables({bad!r})")
    refused(ctx, lambda: constants(bad), ValueError, f"constants({bad!r})")
    n = g.name()
    ctx.count("retyped")
    old = set(r.sample(["t", "u", "w"], r.randrange(3)))
    v = Variable(n, old)
    w = v.with_type_tags(types)
    if canon.term(w) != ("var", n, frozenset(types or ())) or canon.term(v) != ("var", n, frozenset(old)):
        raise Violation(f"with_type_tags({types!r}) of {v} {old} gives {w} {set(w.type_tags)}")
    ts = [r.choice(["t", "u", "w"]) for _ in range(r.choice([2, 3]))]
    if len(set(ts)) < len(ts):
        refused(ctx, lambda: Variable(n, ts), ValueError, f"a variable whose types are {ts}")
    elif set(Variable(n, ts).type_tags) != set(ts):
        raise Violation(f"a variable with types {ts} has {set(Variable(n, ts).type_tags)}")
    k = Constant(n, t)
    if k.type_tag != t or set(k.type_tags) != ({t} - {None}):
        raise Violation(f"a constant of type {t} has type {k.type_tag}, {set(k.type_tags)}")
    q = r.choice(list(Requirements))
    if str(q) != ":" + q.value or Requirements(q.value) is not q:
        raise Violation(f"requirement {q!r} prints as {q}")


def numbers(r, ctx, b):
    ctx.count("numbers")
    v = r.choice([0, 1, 7, 2.5, 0.1, 1e-7, 123456789012, 3.0, r.random(), r.randrange(10 ** 9), Fraction(r.randrange(1000), 8)])
    v = float(v) if isinstance(v, Fraction) else v
    x = F.NumericValue(v)
    if x.value != v:
        raise Violation(f"the number {v!r} is kept as {x.value!r}")
    if float(str(x)) != v or "e" in str(x).lower():
        raise Violation(f"the number {v!r} is printed {x}")
    f, h = F.NumericFunction("f"), F.NumericFunction("h", Constant("k"))
    for cls in (F.EqualTo, F.LesserThan, F.LesserEqualThan, F.GreaterThan, F.GreaterEqualThan, F.Assign, F.ScaleUp, F.ScaleDown, F.Increase, F.Decrease,
                F.Minus, F.Plus, F.Times, F.Divide):
        ops = r.choice([[f, h], [h, f], [x, f], [f, x], [f, f], [f, F.Plus(h, x)], [F.Minus(f, x), F.Times(h, h)]])
        e = cls(*ops)
        if len(e.operands) != 2 or [full(u) for u in e.operands] != [full(u) for u in ops]:
            raise Violation(f"{cls.__name__} does not keep its operands", it=repr(e)[:1000])
