"""C20: objects do not change behind one's back."""
import copy
import pickle

from checks import c01
from checks.c18 import parts_of, sub
from vlib.h import Builder, KINDS, PARSER, SURF, TOKENS, canon, full, gen, lang, same, Violation
from pddl import formatter
from pddl.action import Action
from pddl.exceptions import PDDLError
from pddl.core import Domain, Plan, Problem
from pddl.logic.base import And, ExistsCondition, ForallCondition, OneOf, Or
from pddl.logic.effects import Forall
from pddl.logic.functions import NumericFunction
from pddl.logic.predicates import Predicate
from pddl.logic.terms import Constant, Variable
from pddl.requirements import Requirements

ID = "C20"
TECH = "state monitor: random histories of observers over shared objects, contents and prints compared before and after"
RULE = "one evaluation = one object whose content, print and hash are compared around a history of operations; distinct = distinct (history, content)"
REQUIRE = ["twins", "observed", "histories", "arguments_kept", "arguments_changed_later", "shared_parts"]
N = {"quick": 9000, "thorough": 150000}


class St:
    pass


def cases(tier):
    return N[tier]


def setup():
    st = St()
    st.p = {k: PARSER[k]() for k in KINDS}
    return st


def snap(x):
    try:
        h = hash(x)
    except TypeError:
        h = None
    return (full(x) if not isinstance(x, Requirements) else x.value, str(x), repr(x), h)


def relative(dom, prob, r):
    """A domain like the given one, or that the problem names in another letter case, with more or fewer parts."""
    n = str(prob.domain_name)
    name = r.choice([n, n, n.swapcase(), n.upper(), str(dom.name)])
    reqs = set(dom.requirements) | (set(r.sample(list(Requirements), 2)) if r.random() < 0.5 else set(Requirements))
    types = {k: v for k, v in dom.types.items() if r.random() < 0.8} if r.random() < 0.3 else dict(dom.types)
    acts = [a for a in dom.actions if r.random() < 0.8]
    try:
        return Domain(name, reqs, types, dom.constants, dom.predicates, dom.derived_predicates, dom.functions, acts)
    except PDDLError:
        return Domain(name, reqs, dom.types)


def observers(x, r, env):
    """Operations that only look."""
    name = type(x).__name__
    fs = [
        ("str", lambda: str(x)), ("repr", lambda: repr(x)), ("eq", lambda: x == copy.deepcopy(x)), ("ne", lambda: x != 3),
        ("pickle", lambda: pickle.loads(pickle.dumps(x))), ("copy", lambda: copy.copy(x)), ("canon", lambda: full(x)),
    ]
    if name not in ("Domain", "Problem", "Plan"):
        fs += [("hash", lambda: hash(x)), ("set", lambda: {x, copy.copy(x)})]
    dom, prob, plan = env
    if name == "Domain":
        fs += [
            ("check problem", lambda: quiet(lambda: prob.check(x))), ("plan instantiate", lambda: quiet(lambda: plan.instantiate(x))),
            ("plan check", lambda: quiet(lambda: plan.check(x, prob))), ("domain_to_string", lambda: formatter.domain_to_string(x)),
            ("attach", lambda: quiet(lambda: Problem("pp", domain=x, objects=prob.objects, init=prob.init, goal=prob.goal))),
            ("rebuild", lambda: quiet(lambda: Domain(
                x.name, x.requirements, x.types, x.constants, x.predicates, x.derived_predicates, x.functions, x.actions))),
        ]
    if name == "Problem":
        fs += [
            ("check", lambda: quiet(lambda: x.check(dom))), ("problem_to_string", lambda: formatter.problem_to_string(x)),
            ("plan check", lambda: quiet(lambda: plan.check(dom, x))),
            ("check relative", lambda: quiet(lambda: x.check(relative(dom, x, r)))),
            ("plan check relative", lambda: quiet(lambda: plan.check(relative(dom, x, r), x))),
        ]
    if name == "Plan":
        fs += [
            ("check", lambda: quiet(lambda: x.check(dom, prob))), ("instantiate", lambda: quiet(lambda: x.instantiate(dom))),
            ("plan_to_string", lambda: formatter.plan_to_string(x)),
            ("check relative", lambda: quiet(lambda: x.check(relative(dom, prob, r), prob))),
            ("instantiate relative", lambda: quiet(lambda: x.instantiate(relative(dom, prob, r)))),
        ]
    if name == "Action":
        ks = [Constant(f"k{j}") for j in range(len(x.parameters))]
        fs += [("instantiate", lambda: x.instantiate(ks)), ("instantiate wrongly", lambda: quiet(lambda: x.instantiate(ks + [Constant("z")])))]
    if hasattr(x, "instantiate") and name not in ("Plan", "Action"):
        vs = [Variable(n) for n in ("x", "y", "z", "a")]
        fs += [("instantiate", lambda: x.instantiate({v: Constant("k") for v in vs})), ("instantiate nothing", lambda: x.instantiate({}))]
        fs += [
            ("compose", lambda: quiet(lambda: (And(x, x), Or(x, And(x)), ~x, x & x, x | x, x >> x, OneOf(x, x), str(And(x, Predicate("q"))))))
        ]
        fs += [("quantify", lambda: str(ForallCondition(ExistsCondition(x, vs), vs[:1])))]
    if name == "Predicate" or name == "NumericFunction":
        fs += [("call", lambda: quiet(lambda: x(*[Constant("k")] * x.arity))), ("call itself", lambda: x(*x.terms)), ("wrong call", lambda: quiet(lambda: x(*[Constant("k")] * (x.arity + 1))))]
    if name in ("Predicate", "NumericFunction", "Constant", "Variable", "Requirements"):
        fs += [("sort", lambda: sorted([x, copy.copy(x), x])), ("order", lambda: (x < x, x <= x, x > x, x >= x))]
    if name == "Variable":
        fs += [("with_type_tags", lambda: x.with_type_tags(["t9"]))]
    return fs


def quiet(f):
    from pddl.exceptions import PDDLError

    try:
        return f()
    except (PDDLError, ValueError, AssertionError, TypeError, AttributeError) as e:
        return type(e).__name__


def case(i, st, ctx):
    r = ctx.rng(i)
    g = gen.Gen(r, **c01.knobs(r))
    d = g.domain()
    p = g.problem(d)
    pl = g.plan(d)
    if r.random() < 0.6:
        env = [st.p[k](" ".join(TOKENS[k](a))) for k, a in zip(KINDS, (d, p, pl))]
    else:
        b = Builder(r)
        env = [b.domain(lang.canon_domain(d)), b.problem(lang.canon_problem(p)), b.plan(SURF["plan"](pl))]
    if r.random() < 0.3:
        quiet(lambda: setattr(env[1], "domain", env[0]))
    things = [x for x in parts_of(*env) if not isinstance(x, Requirements)]
    for f in [x for x in things if hasattr(x, "instantiate") and type(x).__name__ not in ("Plan", "Action")][:5]:
        fs = sub(f)
        things += r.sample(fs, min(2, len(fs)))
    watched = env + r.sample(things, min(8, len(things)))
    lazy = r.random() < 0.5
    # (before anything else: the first look might be the one that changes it)
    twins = None if r.random() < 0.6 else [copy.deepcopy(x) for x in watched]
    before = [(full(x), str(x)) if lazy else snap(x) for x in watched]
    history = []
    for _ in range(r.choice([3, 8, 20])):
        x = r.choice(watched)
        ops = observers(x, r, env)
        name, f = r.choice(ops)
        history.append((type(x).__name__, name))
        ctx.count("observed")
        f()
    ctx.count("histories")
    for x, b in zip(watched, before):
        a = (full(x), str(x)) if lazy else snap(x)
        ctx.seen(tuple(history), b[1])
        same(b, a, f"after {history}, a {type(x).__name__}", it=str(x)[:3000])
    for x, y in zip(watched, twins or ()):
        ctx.count("twins")
        if not (x == y and y == x):
            raise Violation(f"after {history}, a {type(x).__name__} no longer equals its copy taken before", it=str(x)[:3000])
    ctx.sample(history)
    # what accessors give out cannot be used to change the object
    for x in watched:
        for attr in ("requirements", "constants", "predicates", "derived_predicates", "actions", "objects", "init", "terms", "operands", "variables", "parameters", "type_tags"):
            if (type(x).__name__, attr) in (("Problem", "requirements"), ("Plan", "actions")):
                continue
            v = getattr(x, attr, None)
            if v is None or callable(v):
                continue
            ctx.count("accessors")
            if isinstance(v, (list, set, dict)):
                # a copy is fine; the object's own collection is not
                was = (full(x), str(x))
                v.clear()
                same(was, (full(x), str(x)), f"{attr} of a {type(x).__name__} hands out its own mutable {type(v).__name__}: after clearing it")
    arguments(r, ctx, g, d, p, pl)


def arguments(r, ctx, g, d, p, pl):
    """Collections given to constructors: kept as they were, and not looked at later."""
    b = Builder(r)
    c, cp = lang.canon_domain(d), lang.canon_problem(p)
    some = r.choice([list, set])
    kw = dict(
        requirements=some(b.reqs(c["reqs"])), types=dict(c["types"]), constants=some(Constant(n, t) for n, t in c["constants"]),
        predicates=some(Predicate(n, *b.vars(vs)) for n, vs in c["preds"]), functions={NumericFunction(n, *b.vars(vs)): t for n, vs, t in c["funcs"]},
        actions=some(b.action(a) for a in c["actions"]), derived_predicates=some(b.derived(x) for x in c["derived"]),
    )
    pkw = dict(
        objects=some(Constant(n, t) for n, t in cp["objects"]), init=some(b.formula(f) for f in cp["init"]), requirements=some(b.reqs(cp["reqs"])),
    )
    saved, psaved = {k: copy.copy(v) for k, v in kw.items()}, {k: copy.copy(v) for k, v in pkw.items()}
    dom = Domain(c["name"], **kw)
    prob = Problem(cp["name"], domain_name=cp["domain"], goal=b.formula(cp["goal"]), metric=b.metric(cp["metric"]), **pkw)
    steps = [(n, [Constant(a) for a in args]) for n, args in SURF["plan"](pl)]
    ssaved = list(steps)
    plan = Plan(steps)
    params = [Variable(f"v{k}") for k in range(3)]
    act = Action("act", params, Predicate("p", *params), None)
    qs = some([Variable("x"), Variable("y")])
    quants = [ForallCondition(Predicate("p"), qs), ExistsCondition(Predicate("p"), qs), Forall(Predicate("p"), qs)]
    ts = some(["t", "u"])
    var = Variable("x", ts)
    objs = [dom, prob, plan, act, *quants, var]
    before = [(full(x), str(x)) for x in objs]
    str(dom), str(prob), str(plan), quiet(lambda: prob.check(dom)), quiet(lambda: plan.instantiate(dom))
    ctx.count("arguments_kept")
    for name, now, then in [*((k, kw[k], saved[k]) for k in kw), *((k, pkw[k], psaved[k]) for k in pkw), ("steps", steps, ssaved)]:
        if type(now) is not type(then) or now != then or (isinstance(now, (list, dict)) and list(now) != list(then)):
            raise Violation(f"the collection given as {name} was changed: {then!r} -> {now!r}"[:1500])
    # now change them all
    ctx.count("arguments_changed_later")
    for v in [*kw.values(), *pkw.values(), *(args for _, args in steps), steps, params, qs, ts]:
        if isinstance(v, dict):
            if r.random() < 0.5:
                v.clear()
            v[Predicate("intruder") if v is not kw["types"] else "intruder"] = None
        elif isinstance(v, list):
            if r.random() < 0.5:
                v.reverse()
                del v[:1]
            v.append("intruder")
        else:
            if r.random() < 0.5 and v:
                v.pop()
            v.add("intruder")
    for x, bf in zip(objs, before):
        same(bf, (full(x), str(x)), f"changing the collections given at construction changed the {type(x).__name__}")
    # parts shared by two objects stay apart
    ctx.count("shared_parts")
    d1 = Domain("d1", dom.requirements, dom.types, dom.constants, dom.predicates, dom.derived_predicates, dom.functions, dom.actions)
    p1 = Problem("p1", domain_name="other", objects=prob.objects, init=prob.init, goal=prob.goal)
    bf = [(full(x), str(x)) for x in (dom, prob)]
    quiet(lambda: setattr(p1, "domain", d1))
    str(d1), str(p1)
    same(bf, [(full(x), str(x)) for x in (dom, prob)], "an object made of the parts of another changed it")


__all__ = ["canon"]
