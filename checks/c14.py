"""C14: instantiating replaces exactly the free occurrences of the parameters."""
from checks import c01
from checks.c11 import Scoped
from vlib.h import PARSER, canon, gen, lang, same, Violation
from vlib.lang import norm_nary
from vlib.build import Builder
from pddl.logic.base import Formula, OneOf
from pddl.logic.effects import Forall, When
from pddl.logic.functions import FunctionExpression, NumericFunction
from pddl.logic.predicates import DerivedPredicate, EqualTo, Predicate
from pddl.logic.terms import Constant, Variable

ID = "C14"
TECH = "reference-model monitor: substitution on canonical values against the library's instantiation"
RULE = "one evaluation = one instantiation compared with the substitution of the reference; distinct = distinct (action, mapping)"
REQUIRE = ["actions", "shadowing", "partial", "variables_as_values", "wrong_length", "derived", "constants_named_as_variables", "grounded_again", "parts", "numeric_parts", "open_derived"]
N = {"quick": 9000, "thorough": 180000}


class St:
    pass


def cases(tier):
    return N[tier]


def setup():
    st = St()
    st.parser = PARSER["domain"]()
    st.pparser = PARSER["problem"]()
    return st


def subst(f, m, ctx=None):
    """m: name -> canonical term."""
    if not isinstance(f, tuple) or not f:
        return f
    k = f[0]
    if k in ("pred", "fun"):
        return (k, f[1], tuple(sub_term(t, m) for t in f[2]))
    if k == "eq":
        return (k, sub_term(f[1], m), sub_term(f[2], m))
    if k in ("and", "or"):
        return norm_nary(k, [subst(x, m, ctx) for x in f[1]])
    if k == "not":
        return (k, subst(f[1], m, ctx))
    if k in ("imply", "when"):
        return (k, subst(f[1], m, ctx), subst(f[2], m, ctx))
    if k == "oneof":
        return (k, tuple(subst(x, m, ctx) for x in f[1]))
    if k in ("forall", "exists", "eforall"):
        bound = {n for n, _ in f[1]}
        if ctx is not None and bound & set(m):
            ctx.count("shadowing")
        return (k, f[1], subst(f[2], {n: t for n, t in m.items() if n not in bound}, ctx))
    if k in ("cmp", "op"):
        return (k, f[1], tuple(subst(x, m, ctx) for x in f[2]))
    if k == "num":
        return f
    if k == "derived":
        return (k, subst(f[1], m, ctx), subst(f[2], m, ctx))
    raise AssertionError(f"harness: {f!r}")


def sub_term(t, m):
    return m.get(t[1], t) if t[0] == "var" else t


def case(i, st, ctx):
    r = ctx.rng(i)
    cls = Scoped if r.random() < 0.6 else gen.Gen
    g = cls(r, **({"pool": ["x", "y", "z", "a"], "size": 2} if r.random() < 0.7 else c01.knobs(r)))
    d = g.domain()
    c = lang.canon_domain(d)
    if r.random() < 0.5:
        dom = st.parser(lang.plain(lang.tokens_domain(d)))
    else:
        dom = Builder(r).domain(c)
    used = sorted(set(g.consts) | {"o1", "o2", "x", "y"})
    for a in sorted(dom.actions, key=lambda a: a.name):
        before = canon.action(a, True)
        n = len(a.parameters)
        names = [p[0] for p in before[1]]
        mode = r.choice(["const", "const", "const", "var", "same", "permuted", "permuted"])
        if mode == "permuted" and (len(set(names)) < 2 or bound_names(before) & set(names)):
            mode = "const"
        if mode == "const":
            mp = [Constant(r.choice(used), r.choice([None, "t9"])) for _ in range(n)]
            if {m.name for m in mp} & set(names):
                ctx.count("constants_named_as_variables")
        elif mode == "same":
            k = Constant(r.choice(used))
            mp = [k] * n
        elif mode == "permuted":
            # the parameters themselves, in another order (possibly with repetitions): all at once, not one after the other
            ctx.count("parameters_as_values")
            mp = list(a.parameters)
            r.shuffle(mp)
            if r.random() < 0.4:
                mp = [r.choice(mp) for _ in mp]
        else:
            # fresh variables: no capture is possible
            ctx.count("variables_as_values")
            mp = [Variable(f"fresh-{k}", r.choice([None, ["t1"]])) for k in range(n)]
        arg = mp if r.random() < 0.5 else tuple(mp)
        got = a.instantiate(arg)
        ctx.count("actions")
        m = {v: canon.term(t) for v, t in zip(names, mp)}
        plain = canon.action(a)
        want = (
            plain[0], tuple(canon.term(t) for t in mp),
            None if plain[2] is None else subst(plain[2], m, ctx), None if plain[3] is None else subst(plain[3], m, ctx),
        )
        ctx.seen(before, tuple(map(str, mp)))
        same(want, canon.ground_action(got), f"instantiation of {a.name} with {list(map(str, mp))}", action=str(a)[:3000])
        if [type(t) for t in got.parameters] != [type(t) for t in mp] or any(x != y or x.type_tags != y.type_tags for x, y in zip(got.parameters, mp)):
            raise Violation("the parameters of the instantiated action are not the given terms")
        same(before, canon.action(a, True), "instantiating changed the action itself")
        again = a.instantiate(arg)
        if again != got or str(again) != str(got) or hash(again) != hash(got):
            raise Violation("instantiating twice gives two results", action=str(a)[:3000])
        if mode not in ("var", "permuted"):
            # ground: no free occurrence of a parameter is left; instantiating its body again does nothing
            for f in (got.precondition, got.effect):
                if f is not None:
                    free = free_vars(canon.formula(f))
                    if free & set(names):
                        raise Violation(f"free parameters left: {free}", action=str(a)[:3000])
            if mode != "var":
                # the parameters are constants now: they do not occur as variables, and constants stay
                ctx.count("grounded_again")
                others = [Constant(r.choice(used), r.choice([None, "t8"])) for _ in mp]
                more = got.instantiate(others)
                want2 = (plain[0], tuple(canon.term(t) for t in others), want[2], want[3])
                same(want2, canon.ground_action(more), "instantiation of an instantiated action", action=str(got)[:3000])
        ctx.sample(f"{a.name} {list(map(str, mp))}")
        # wrong number of terms
        wrong = list(mp) + [Constant("o")] if r.random() < 0.5 or not mp else list(mp)[:-1]
        ctx.count("wrong_length")
        try:
            a.instantiate(wrong)
        except ValueError:
            pass
        else:
            raise Violation(f"{len(wrong)} terms accepted for {n} parameters", action=str(a)[:2000])
        # partial mappings of formulas
        for f in (a.precondition, a.effect):
            if f is None or not n:
                continue
            ctx.count("partial")
            keep = [k for k in range(n) if r.random() < 0.5]
            mapping = {a.parameters[k]: mp[k] for k in keep}
            saved = dict(mapping)
            res = f.instantiate(mapping)
            if mapping != saved:
                raise Violation("instantiating changed the mapping given")
            cf = canon.formula(f)
            same(subst(cf, {names[k]: canon.term(mp[k]) for k in keep}), canon.formula(res), "partial instantiation", formula=str(f)[:3000])
            same(cf, canon.formula(f), "instantiating changed the formula itself")
            ident = f.instantiate({})
            if canon.formula(ident) != cf or ident != f:
                raise Violation("the empty substitution changes the formula", formula=str(f)[:3000])
    for x in sorted(dom.derived_predicates, key=str):
        ctx.count("derived")
        vs = list(x.predicate.terms)
        mode = r.choice(["const", "const", "permuted", "some"])
        names = {str(v.name) for v in vs}
        if mode == "permuted" and bound_names(canon.formula(x)) & names:
            mode = "const"
        mp = [Constant(r.choice(used)) for _ in vs]
        if mode == "permuted":
            mp = r.sample(vs, len(vs))
        pairs = dict(zip(vs, mp))
        if mode == "some":
            pairs = {v: t for v, t in pairs.items() if r.random() < 0.5}
        check_part(x, pairs, r, "instantiation of a derived predicate")
    # every part of the bodies on its own: its free variables are then those of the whole and of the binders around it
    found = []
    for a in sorted(dom.actions, key=lambda a: a.name):
        parts(a.precondition, found)
        parts(a.effect, found)
    for x in sorted(dom.derived_predicates, key=str):
        parts(x.condition, found)
    for f in r.sample(found, min(len(found), 10)):
        ctx.count("numeric_parts" if isinstance(f, FunctionExpression) else "parts")
        check_part(f, mapping_for(f, r, used), r, f"instantiation of a {type(f).__name__}")
    preds = [f for f in found if type(f) is Predicate and all(isinstance(t, Variable) for t in f.terms)]
    conds = [f for f in found if not isinstance(f, (FunctionExpression, When, Forall, OneOf, NumericFunction))]
    if preds and conds:
        # a derived predicate whose condition has more free variables than its head (part of a larger formula)
        x = DerivedPredicate(r.choice(preds), r.choice(conds))
        ctx.count("open_derived")
        check_part(x, mapping_for(x, r, used), r, "instantiation of a derived predicate with further free variables")
    if i % 5 == 0:
        p = g.problem(d)
        obj = st.pparser(lang.plain(lang.tokens_problem(p)))
        cf = canon.formula(obj.goal)
        v = Variable(r.choice(["x", "y", "z", "a"]))
        res = obj.goal.instantiate({v: Constant("o1")})
        same(subst(cf, {}), canon.formula(res), "a closed goal changes under substitution", goal=str(obj.goal)[:3000])


def bound_names(f):
    if not isinstance(f, tuple):
        return set()
    out = {n for n, _ in f[1]} if f and f[0] in ("forall", "exists", "eforall") else set()
    return out.union(*map(bound_names, f))


def free_vars(f, bound=frozenset()):
    out = set()
    if isinstance(f, tuple) and f:
        if f[0] == "var":
            return {f[1]} - bound
        if f[0] in ("forall", "exists", "eforall"):
            return free_vars(f[2], bound | {n for n, _ in f[1]})
        for x in f:
            out |= free_vars(x, bound)
    elif isinstance(f, frozenset):
        for x in f:
            out |= free_vars(x, bound)
    return out


NODE = (Formula, FunctionExpression, When, Forall)


def kids(f):
    out = []
    for k in ("operands", "argument", "condition", "effect", "predicate"):
        v = getattr(f, k, None)
        if isinstance(v, NODE):
            out.append(v)
        elif isinstance(v, (list, tuple)):
            out += [x for x in v if isinstance(x, NODE)]
    return out


def parts(f, out):
    if f is not None:
        out.append(f)
        for x in kids(f):
            parts(x, out)


def free_objects(f, bound=frozenset(), out=None):
    """The variables (as objects) that occur free, by name."""
    out = {} if out is None else out
    for t in getattr(f, "terms", ()):
        if isinstance(t, Variable) and str(t.name) not in bound:
            out.setdefault(str(t.name), set()).add(t)
    if isinstance(f, EqualTo):
        for t in (f.left, f.right):
            if isinstance(t, Variable) and str(t.name) not in bound:
                out.setdefault(str(t.name), set()).add(t)
    inner = bound | {str(v.name) for v in getattr(f, "variables", ())}
    for x in kids(f):
        free_objects(x, inner, out)
    return out


def mapping_for(f, r, used):
    """Some of the free variables, and possibly some that only occur bound or nowhere, to constants or fresh variables."""
    free = free_objects(f)
    out = {}
    for n, vs in sorted(free.items()):
        if len(vs) == 1 and r.random() < 0.75:
            out[next(iter(vs))] = Constant(r.choice(used)) if r.random() < 0.8 else Variable(f"fresh-{r.randrange(3)}")
    for n in bound_names(canon.formula(f)) - set(free):
        if r.random() < 0.3:
            out[Variable(n)] = Constant(r.choice(used))
    if r.random() < 0.2:
        out[Variable("nowhere")] = Constant("o1")
    items = list(out.items())
    r.shuffle(items)
    return dict(items)


def check_part(f, mapping, r, what):
    cf = canon.formula(f)
    saved = list(mapping.items())
    res = f.instantiate(mapping)
    if list(mapping.items()) != saved:
        raise Violation("instantiating changed the mapping given", formula=str(f)[:3000])
    same(
        subst(cf, {str(v.name): canon.term(t) for v, t in saved}), canon.formula(res), what,
        formula=str(f)[:3000], mapping=[(str(v), str(t)) for v, t in saved],
    )
    same(cf, canon.formula(f), "instantiating changed the formula itself", formula=str(f)[:3000])
    # what the instantiation gives equals the same thing taken apart: nothing of the original is cached in it
    again = f.instantiate(dict(saved))
    if again != res or hash(again) != hash(res) or str(again) != str(res):
        raise Violation("instantiating twice gives two results", formula=str(f)[:3000])
