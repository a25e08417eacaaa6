"""C15: a plan fits a domain and a problem exactly when each of its steps does; and it unfolds into ground actions."""
from checks import c01
from checks.c14 import subst
from vlib.h import Builder, PARSER, SURF, TOKENS, canon, gen, lang, same, Violation
from pddl.core import Plan
from pddl.exceptions import PDDLValidationError
from pddl.logic.terms import Constant

ID = "C15"
TECH = "reference-model monitor: step-by-step oracle of plan validity and unfolding over valid and mutated plans"
RULE = (
    "one evaluation = one plan checked and unfolded against a domain and a problem, compared with the oracle; "
    "distinct = distinct (plan, faults)"
)
REQUIRE = ["fits", "unknown_action", "wrong_arity", "unknown_object", "unfolded", "late_faults", "empty_plans"]
N = {"quick": 14000, "thorough": 250000}


class St:
    pass


def cases(tier):
    return N[tier]


def setup():
    st = St()
    st.p = {k: PARSER[k]() for k in ("domain", "problem", "plan")}
    return st


def case(i, st, ctx):
    r = ctx.rng(i)
    g = gen.Gen(r, **c01.knobs(r))
    d = g.domain()
    p = g.problem(d)
    cd, cp = lang.canon_domain(d), lang.canon_problem(p)
    if r.random() < 0.4:
        dom, prob = st.p["domain"](" ".join(TOKENS["domain"](d))), st.p["problem"](" ".join(TOKENS["problem"](p)))
    else:
        b = Builder(r)
        dom, prob = b.domain(cd), b.problem(cp)
    arity = {a[0]: len(a[1]) for a in cd["actions"]}
    known = {n for n, _ in cp["objects"]} | {n for n, _ in cd["constants"]}
    acts = sorted(arity)
    pool = sorted(known)
    for _ in range(3):
        steps = []
        for _ in range(r.choice([0, 1, 1, 2, 3, 6, 20] if r.random() < 0.99 else [120, 400, 1100])):
            if acts and (pool or r.random() < 0.5):
                a = r.choice(acts)
                if pool or not arity[a]:
                    steps.append([a, [r.choice(pool) for _ in range(arity[a])]])
        faults = mutate(r, steps, acts, pool, g)
        judge(i, st, ctx, r, steps, faults, dom, prob, arity, known)
    # the plan made by the generator, from text
    steps = [[n, list(a)] for n, a in g.plan(d)]
    judge(i, st, ctx, r, steps, [], dom, prob, arity, known)


def mutate(r, steps, acts, pool, g):
    if r.random() < 0.35:
        return []
    out = []
    for _ in range(r.choice([1, 1, 1, 2])):
        k = r.choice([r.randrange(len(steps) + 1), max(0, len(steps) - 1)])
        what = r.choice(["action", "case", "arity-", "arity+", "object", "objcase", "swap", "new", "prefix", "typename"])
        out.append(what)
        if what == "new" or k == len(steps):
            steps.insert(k, [r.choice(acts + ["no-such"]) if acts else "no-such", [r.choice(pool + ["nobody"]) for _ in range(r.randrange(4))]])
            continue
        s = steps[k]
        if what == "action":
            s[0] = r.choice([g.names(1)[0], "no-such"] + acts)
        elif what == "case":
            s[0] = s[0].swapcase()
        elif what == "prefix":
            s[0] = s[0] + r.choice(["-", "1", "_x"])
        elif what == "arity-" and s[1]:
            del s[1][r.randrange(len(s[1]))]
        elif what == "arity+":
            s[1].insert(r.randrange(len(s[1]) + 1), r.choice(pool + ["o"]))
        elif what == "object" and s[1]:
            s[1][r.randrange(len(s[1]))] = r.choice(["nobody", g.names(1)[0], s[0]])
        elif what == "objcase" and s[1]:
            j = r.randrange(len(s[1]))
            s[1][j] = s[1][j].swapcase()
        elif what == "typename" and s[1]:
            s[1][r.randrange(len(s[1]))] = r.choice(sorted(set(g.all_types)) or ["t"])
        elif what == "swap" and s[1]:
            r.shuffle(s[1])
    for s in steps:
        if s[0] in lang.RESERVED:
            s[0] = "no-such"
        s[1][:] = ["o" if x in lang.RESERVED else x for x in s[1]]
    return out


def judge(i, st, ctx, r, steps, faults, dom, prob, arity, known):
    plan_c = tuple((n, tuple(a)) for n, a in steps)
    if r.random() < 0.5:
        plan = st.p["plan"](" ".join(lang.tokens_plan([(n, list(a)) for n, a in steps])))
    else:
        plan = Plan([(n, [Constant(x, r.choice([None, None, "t7"])) for x in a]) for n, a in steps])
    bad = None
    for k, (n, a) in enumerate(plan_c):
        if n not in arity:
            bad = (k, "unknown_action")
        elif len(a) != arity[n]:
            bad = (k, "wrong_arity")
        elif not set(a) <= known:
            bad = (k, "unknown_object")
        if bad:
            break
    ctx.count(bad[1] if bad else "fits")
    if bad and bad[0] > 0:
        ctx.count("late_faults")
    if not plan_c:
        ctx.count("empty_plans")
    ctx.seen(plan_c, tuple(faults))
    ctx.sample(f"{plan_c} -> {bad}")
    try:
        res = plan.check(dom, prob)
        got = None
    except PDDLValidationError as e:
        got = e
    if (got is None) != (bad is None):
        raise Violation(
            f"the plan {'does not fit: ' + str(bad) if bad else 'fits'}, but the check says {got!r}", plan=plan_c, domain=str(dom)[:3000], problem=str(prob)[:2000],
        )
    if got is None and res is not None:
        raise Violation(f"the check returned {res!r}")
    same(plan_c, canon.plan(plan), "checking changed the plan")
    # unfolding does not look at the objects
    usable = all(n in arity and len(a) == arity[n] for n, a in plan_c)
    try:
        ground = plan.instantiate(dom)
    except ValueError as e:
        if usable:
            raise Violation(f"the plan does not unfold: {e}", plan=plan_c, domain=str(dom)[:3000])
        return
    if not usable:
        raise Violation("a plan with a step that fits no action of the domain was unfolded", plan=plan_c, domain=str(dom)[:3000])
    ctx.count("unfolded")
    schema = {str(a.name): canon.action(a) for a in dom.actions}
    want = []
    for n, a in plan_c:
        s = schema[n]
        m = {v: ("const", x) for (v, _), x in zip(s[1], a)}
        want.append((n, tuple(("const", x) for x in a), None if s[2] is None else subst(s[2], m), None if s[3] is None else subst(s[3], m)))
    if len(ground) != len(want):
        raise Violation(f"{len(want)} steps unfolded into {len(ground)} actions")
    for k, (w, x) in enumerate(zip(want, ground)):
        same(w, canon.ground_action(x), f"step {k} of the unfolded plan", plan=plan_c, domain=str(dom)[:3000])
    same(plan_c, canon.plan(plan), "unfolding changed the plan")


__all__ = ["SURF"]
