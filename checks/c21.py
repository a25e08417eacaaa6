"""C21: composing and parsing formulas, expressions and effects keeps what they mean."""
import functools
import operator

from checks import c01
from checks.c11 import Scoped
from vlib import sem
from vlib.h import PARSER, gen, lang, Violation
from pddl.logic.base import And, Imply, Not, Or
from pddl.logic.predicates import EqualTo, Predicate
from pddl.logic.terms import Constant, Variable

ID = "C21"
TECH = "semantic monitor: truth, value and outcome in random worlds of what is written against what the objects say"
RULE = (
    "one evaluation = one formula, expression or effect judged in one random world, as written and as the object composed or parsed "
    "from it; distinct = distinct (tree, world) pairs"
)
REQUIRE = ["conditions_composed", "conditions_parsed", "effects_composed", "effects_parsed", "expressions", "goals", "true", "false", "substitutions", "reprinted", "operators", "long_lists"]
N = {"quick": 12000, "thorough": 220000}


class St:
    pass


def cases(tier):
    return N[tier]


def setup():
    st = St()
    st.p = {k: PARSER[k]() for k in ("domain", "problem")}
    return st


def case(i, st, ctx):
    r = ctx.rng(i)
    g = (Scoped if r.random() < 0.4 else gen.Gen)(r, **({"pool": ["x", "y", "z", "a"], "size": 2} if r.random() < 0.5 else c01.knobs(r)))
    d = g.domain()
    dom = st.p["domain"](lang.plain(lang.tokens_domain(d)))
    again = st.p["domain"](str(dom))
    ctx.count("reprinted")
    maker = sem.Maker(r)
    acts = {str(a.name): a for a in dom.actions}
    acts2 = {str(a.name): a for a in again.actions}
    for s in d["structs"]:
        if s[0] == "action":
            env = dict(lang.flat_tl(s[2]))
            for tree, part, kind in ((s[3], "precondition", "gd"), (s[4], "effect", "eff")):
                if tree is None:
                    continue
                name = "conditions" if kind == "gd" else "effects"
                parsed = getattr(acts[s[1]], part)
                judge(r, ctx, kind, tree, parsed, name + "_parsed")
                judge(r, ctx, kind, tree, getattr(acts2[s[1]], part), name + "_parsed")
                composed = quiet(lambda: getattr(maker, kind)(tree, env))
                if composed is not None:
                    judge(r, ctx, kind, tree, composed, name + "_composed")
                    substitute(r, ctx, kind, tree, composed, [n for n, _ in lang.flat_tl(s[2])])
        else:
            env = dict(lang.flat_tl(s[2]))
            composed = quiet(lambda: maker.gd(s[3], env))
            if composed is not None:
                judge(r, ctx, "gd", s[3], composed, "conditions_composed")
    conds = [(x, dict(lang.flat_tl(s[2]))) for s in d["structs"] for x in (s[3],) if x is not None]
    if r.random() < 0.5:
        operators(r, ctx, maker, conds)
    if r.random() < 0.03:
        many(st, r, ctx)
    if r.random() < 0.5:
        p = g.problem(d)
        prob = st.p["problem"](lang.plain(lang.tokens_problem(p)))
        judge(r, ctx, "gd", p["goal"], prob.goal, "goals")
        judge(r, ctx, "gd", p["goal"], st.p["problem"](str(prob)).goal, "goals")
        if p["metric"]:
            judge(r, ctx, "exp", p["metric"][1], prob.metric.expression, "expressions")
            judge(r, ctx, "exp", p["metric"][1], maker.exp(p["metric"][1], {}), "expressions")


def operators(r, ctx, maker, conds):
    """The value of what is composed is computed from the values of its operands, in several worlds; operands keep theirs."""
    seeds = [r.randrange(10 ** 9) for _ in range(5)]

    def values(f):
        try:
            return tuple(sem.Objects.gd(sem.World(s, 2, 400), f, {}) for s in seeds)
        except sem.TooBig:
            ctx.count("too_big")
            return None

    atoms = [Predicate(n, *[Constant(c) for c in cs]) for n in ("p", "q", "s") for cs in ([], ["a"], ["a", "b"]) if r.random() < 0.5]
    written = [quiet(lambda: maker.gd(t, env)) for t, env in r.sample(conds, min(2, len(conds)))]
    pool = [(f, values(f)) for f in [*atoms, EqualTo(Constant("a"), Constant("b")), *written] if f is not None]
    pool = [x for x in pool if x[1]]
    made = []
    for _ in range(10):
        n = r.choice([1, 1, 2, 2, 2, 2, 3, 4])
        ops = [r.choice(made if made and r.random() < 0.6 else pool) for _ in range(n)]
        fs, vs = [o[0] for o in ops], [o[1] for o in ops]
        how, f, want = r.choice(HOWS[min(n, 3)])
        obj = quiet(lambda: f(*fs))
        got = None if obj is None else values(obj)
        if not got:
            continue
        want = tuple(want(*v) for v in zip(*vs))
        ctx.count("operators")
        ctx.seen(how, str(obj)[:500])
        if got != want:
            raise Violation(f"{how}: in these worlds it should be {want}, it is {got}", operands=[str(x)[:800] for x in fs], obj=str(obj)[:2000])
        made.append((obj, got))
    for f, v in pool + made:
        if values(f) != v:
            raise Violation("composing changed what an operand means", operand=str(f)[:2000])


def many(st, r, ctx):
    """A long list of operands of which one alone decides, wherever it stands."""
    n, seed = r.choice([20, 40, 80, 160, 300]), r.randrange(10 ** 9)
    value = lambda f: sem.Objects.gd(sem.World(seed, 2, 10 ** 5), f, {})
    lits = [Predicate(f"p{j}", *[Constant(c) for c in r.sample("abcd", r.choice([0, 1, 2]))]) for j in range(2 * n + 20)]
    lits = [Not(x) if r.random() < 0.3 else x for x in lits]
    for cls, usual in ((And, True), (Or, False)):
        ops = [x for x in lits if value(x) is usual][:n]
        odd = [x for x in lits if value(x) is not usual][:1]
        ops.insert(r.choice([len(ops), r.randrange(len(ops) + 1)]), odd[0]) if odd and r.random() < 0.8 else None
        want = all(map(value, ops)) if cls is And else any(map(value, ops))
        k = r.randrange(1, max(2, len(ops)))
        forms = {
            "flat": lambda: cls(*ops),
            "nested": lambda: cls(cls(*ops[:k]), *ops[k:]),
            "in groups": lambda: cls(*[cls(*ops[j: j + k]) for j in range(0, len(ops), k)]),
            "parsed": lambda: st.p["problem"](f"(define (problem p) (:domain d) (:objects a b c d) (:init) (:goal ({cls.SYMBOL} {' '.join(map(str, ops))})))").goal,
            "one by one": lambda: functools.reduce(operator.and_ if cls is And else operator.or_, ops[:60]),
        }
        for how, f in forms.items():
            if how == "one by one" and len(ops) > 60:
                continue
            got = value(f())
            ctx.count("long_lists")
            if got is not want:
                raise Violation(f"{cls.SYMBOL} of {len(ops)} operands, {how}: it should be {want}, it is {got}", operands=[str(x) for x in ops])


SEVERAL = [
    ("And(..)", And, lambda *v: all(v)),
    ("Or(..)", Or, lambda *v: any(v)),
    ("And(And(..), And(..))", lambda *f: And(And(*f[:1]), And(*f[1:])), lambda *v: all(v)),
    ("Or(Or(..), And(..))", lambda *f: Or(Or(*f[:1]), And(*f[1:])), lambda *v: v[0] or all(v[1:])),
    ("And(Or(..), Or(..))", lambda *f: And(Or(*f[:1]), Or(*f[1:])), lambda *v: v[0] and any(v[1:])),
]
HOWS = {
    1: [("~", lambda f: ~f, lambda v: not v), ("Not", Not, lambda v: not v), ("And(.)", And, lambda v: v), ("Or(.)", Or, lambda v: v), ("~~", lambda f: ~~f, lambda v: v)],
    2: [
        ("&", lambda f, g: f & g, lambda v, w: v and w),
        ("|", lambda f, g: f | g, lambda v, w: v or w),
        (">>", lambda f, g: f >> g, lambda v, w: not v or w),
        ("Imply", Imply, lambda v, w: not v or w),
        ("~ &", lambda f, g: ~(f & g), lambda v, w: not (v and w)),
        ("~ |", lambda f, g: ~(f | g), lambda v, w: not (v or w)),
        ("~f | ~g", lambda f, g: ~f | ~g, lambda v, w: not v or not w),
        ("~f & ~g", lambda f, g: ~f & ~g, lambda v, w: not v and not w),
        ("&=", lambda f, g: grown(f, g, "and"), lambda v, w: v and w),
        ("|=", lambda f, g: grown(f, g, "or"), lambda v, w: v or w),
    ],
    3: SEVERAL
    + [
        ("f & g & ..", lambda *f: functools.reduce(operator.and_, f), lambda *v: all(v)),
        ("f | g | ..", lambda *f: functools.reduce(operator.or_, f), lambda *v: any(v)),
        (".. >> f", lambda *f: functools.reduce(operator.rshift, f), lambda *v: functools.reduce(lambda a, b: not a or b, v)),
        ("f >> (g | ..)", lambda f, *g: f >> Or(*g), lambda v, *w: not v or any(w)),
        ("(f | ..) >> (.. & g)", lambda *f: Or(*f[:2]) >> And(*f[1:]), lambda *v: not any(v[:2]) or all(v[1:])),
        ("(f & ..) >> (.. | g)", lambda *f: And(*f[:2]) >> Or(*f[1:]), lambda *v: not all(v[:2]) or any(v[1:])),
    ],
}
HOWS[2] += SEVERAL


def grown(f, g, how):
    h = f
    if how == "and":
        h &= g
    else:
        h |= g
    return h


def quiet(f):
    try:
        return f()
    except ValueError:
        return None  # one variable, two typings (refused at construction)


def judge(r, ctx, kind, tree, obj, counter):
    for _ in range(2):
        seed, size = r.randrange(10 ** 9), r.choice([1, 2, 2, 3])
        try:
            want = getattr(sem.Written, kind)(sem.World(seed, size), tree, {})
            got = getattr(sem.Objects, kind)(sem.World(seed, size, 10 ** 5), obj, {})
        except sem.TooBig:
            ctx.count("too_big")
            return
        ctx.count(counter)
        if want is True or want is False:
            ctx.count("true" if want else "false")
        ctx.seen(repr(tree)[:2000], seed)
        if want != got:
            raise Violation(
                f"{counter}: as written it is {str(want)[:300]} in a world, the object says {str(got)[:300]}", tree=repr(tree)[:3000], obj=str(obj)[:3000],
            )
    ctx.sample(str(obj)[:300])


def substitute(r, ctx, kind, tree, obj, params):
    """Instantiating with constants is evaluating with their values."""
    some = [n for n in params if r.random() < 0.7]
    consts = {n: r.choice(["k1", "k2", "x", "y"]) for n in some}
    inst = obj.instantiate({Variable(n, types): Constant(c) for n, c in consts.items() for types in typings(obj, n)})
    seed = r.randrange(10 ** 9)
    w1, w2 = sem.World(seed, 2), sem.World(seed, 2, 10 ** 5)
    try:
        want = getattr(sem.Written, kind)(w1, tree, {n: w1.const(c) for n, c in consts.items()})
        got = getattr(sem.Objects, kind)(w2, inst, {})
    except sem.TooBig:
        return
    ctx.count("substitutions")
    if want != got:
        raise Violation(
            f"instantiated with {consts}: should be {str(want)[:300]}, is {str(got)[:300]}", tree=repr(tree)[:3000], obj=str(obj)[:2000], instance=str(inst)[:2000],
        )


def typings(obj, name):
    from checks.c18 import sub

    return {frozenset(map(str, t.type_tags)) for x in sub(obj) for t in getattr(x, "terms", ()) if isinstance(t, Variable) and t.name == name} | {
        frozenset(map(str, t.type_tags)) for x in sub(obj) if isinstance(x, Variable) and x.name == name for t in (x,)
    }
