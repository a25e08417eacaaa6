"""C18: copies and pickles are the same thing, in this interpreter and in any other."""
import copy
import pickle

from pddl.exceptions import PDDLError

from checks import c01
from vlib.h import Builder, KINDS, PARSER, SURF, TOKENS, full, gen, lang, same, Violation
from vlib.peer import Peer

ID = "C18"
TECH = "round-trip monitor across interpreters with different hash seeds; state snapshots around copying"
RULE = (
    "one evaluation = one object copied or pickled (one protocol) and compared with the original and with a fresh equal object; "
    "distinct = distinct (route, class, content)"
)
REQUIRE = ["pickled", "copied", "deep_copied", "loaded_elsewhere", "loaded_here", "hashed_before", "set_found", "problem_with_its_domain"]
N = {"quick": 5000, "thorough": 90000}
BATCH = 40


class St:
    pass


def cases(tier):
    return N[tier]


def setup():
    st = St()
    st.p = {k: PARSER[k]() for k in KINDS}
    st.peers = [Peer(424242), Peer(0)]
    st.out, st.inb, st.which = [], [], 0
    return st


def teardown(st, ctx):
    flush(st, ctx, force=True)
    for p in st.peers:
        p.close()


def parts_of(dom, prob, plan):
    out = [dom, prob, plan]
    for a in sorted(dom.actions, key=lambda a: a.name):
        out += [a, a.precondition, a.effect, *a.parameters]
    out += list(dom.predicates) + list(dom.functions) + list(dom.derived_predicates) + list(dom.constants)
    out += list(prob.init) + [prob.goal, prob.metric, *prob.objects] + list(dom.requirements)
    return [x for x in out if x is not None]


def sub(f):
    """The formulas below a formula."""
    out, stack = [], [f]
    while stack:
        x = stack.pop()
        out.append(x)
        for a in ("operands",):
            stack.extend(getattr(x, a, ()))
        for a in ("argument", "condition", "effect", "left", "right", "predicate", "expression"):
            if isinstance(getattr(type(x), a, None), property):
                stack.append(getattr(x, a))
        stack.extend(getattr(x, "terms", ()))
        stack.extend(getattr(x, "variables", ()))
    return out


def case(i, st, ctx):
    r = ctx.rng(i)
    g = gen.Gen(r, **c01.knobs(r))
    d = g.domain()
    p = g.problem(d)
    pl = g.plan(d)
    asts = {"domain": d, "problem": p, "plan": pl}
    texts = {k: " ".join(TOKENS[k](a)) for k, a in asts.items()}
    objs = {k: st.p[k](t) for k, t in texts.items()}
    if r.random() < 0.3:
        b = Builder(r)
        objs["domain"] = b.domain(lang.canon_domain(d))
        objs["problem"] = b.problem(lang.canon_problem(p))
    joined = None
    if r.random() < 0.5:
        try:
            joined = Builder(r).problem(lang.canon_problem(p), domain=objs["domain"])
        except (PDDLError, ValueError):
            pass
    parsed = {k: st.p[k](t) for k, t in texts.items()}
    if r.random() < 0.5:
        for x in parts_of(parsed["domain"], parsed["problem"], parsed["plan"]):
            h(x)
    things = parts_of(objs["domain"], objs["problem"], objs["plan"])
    for f in [x for x in things if hasattr(x, "instantiate") and not hasattr(x, "parameters") and not hasattr(x, "actions")][:6]:
        things += r.sample(sub(f), min(3, len(sub(f))))
    if r.random() < 0.6:
        ctx.count("hashed_before")
        for x in things:
            try:
                hash(x)
            except TypeError:
                pass
    r.shuffle(things)
    if joined is not None:
        ctx.count("problem_with_its_domain")
        check(joined, r, ctx)
        y = r.choice([copy.copy, copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x))])(joined)
        same(full(joined.domain), full(y.domain), "the domain of a copied problem", problem=str(joined)[:3000])
    for x in things[:14]:
        check(x, r, ctx)
    # to another interpreter
    for kind in KINDS:
        if r.random() < 0.5:
            st.out.append((kind, texts[kind], pickle.dumps(parsed[kind], r.randrange(pickle.HIGHEST_PROTOCOL + 1)), SURF[kind](asts[kind])))
        else:
            st.inb.append((kind, texts[kind], r.randrange(pickle.HIGHEST_PROTOCOL + 1)))
    acts = [x for a in sorted(parsed["domain"].actions, key=lambda a: a.name) for x in (a, a.precondition, a.effect)]
    if any(x is not None for x in acts):
        for x in acts:
            hash(x)
        st.out.append(("parts", texts["domain"], pickle.dumps(acts, r.randrange(pickle.HIGHEST_PROTOCOL + 1)), None))
    flush(st, ctx)


def flush(st, ctx, force=False):
    if not force and len(st.out) + len(st.inb) < BATCH:
        return
    st.which += 1
    peer = st.peers[st.which % len(st.peers)]
    out, st.out = st.out, []
    inb, st.inb = st.inb, []
    for (kind, text, _, _), wrong in zip(out, peer.ask("load", out)):
        ctx.count("loaded_elsewhere")
        ctx.seen("elsewhere", kind, text)
        if wrong is not None:
            raise Violation(f"a {kind} pickled here and loaded in another interpreter: {wrong}", text=text[:4000])
    for (kind, text, _), blob in zip(inb, peer.ask("dump", inb)):
        ctx.count("loaded_here")
        ctx.seen("here", kind, text)
        y, x = pickle.loads(blob), st.p[kind](text)
        if not (x == y and y == x) or str(x) != str(y):
            raise Violation(f"a {kind} pickled in another interpreter and loaded here differs from the original", text=text[:4000])
        if kind == "domain":
            for a in x.actions:
                if a not in y.actions:
                    raise Violation("an action is not found in the set loaded from another interpreter", text=text[:4000])
            for q in x.predicates:
                if q not in y.predicates:
                    raise Violation("a predicate is not found in the set loaded from another interpreter", text=text[:4000])


def state(x):
    return (full_(x), str(x), repr(x))


def full_(x):
    name = type(x).__name__
    if name in ("Requirements",):
        return name, x.value
    return full(x)


def h(x):
    try:
        return hash(x)
    except TypeError:
        return None


def check(x, r, ctx):
    before = state(x)
    hx = h(x)
    name = type(x).__name__
    routes = [("copy", copy.copy), ("deepcopy", copy.deepcopy)]
    routes += [(f"pickle{p}", lambda v, p=p: pickle.loads(pickle.dumps(v, p))) for p in range(pickle.HIGHEST_PROTOCOL + 1)]
    for route, f in r.sample(routes, 4):
        y = f(x)
        ctx.count("copied" if route == "copy" else "deep_copied" if route == "deepcopy" else "pickled")
        ctx.seen(route, name, before[1])
        if type(y) is not type(x):
            raise Violation(f"{route} of a {name} is a {type(y).__name__}")
        if not (x == y and y == x) or x != y:
            raise Violation(f"{route} of a {name} is not equal to it", it=before[1][:3000], copy=str(y)[:3000])
        same(before[0], full_(y), f"{route} of a {name}", it=before[1][:3000])
        if str(y) != before[1]:
            raise Violation(f"{route} of a {name} prints otherwise", it=before[1][:3000], copy=str(y)[:3000])
        if h(y) != hx or h(x) != hx:
            raise Violation(f"{route} of a {name} has another hash", it=before[1][:3000])
        if hx is not None:
            ctx.count("set_found")
            if y not in {x} or x not in {y}:
                raise Violation(f"{route} of a {name} is not found in a set with it", it=before[1][:3000])
        if route != "copy" and name in ("And", "Or", "Predicate", "Domain", "Problem", "Plan", "Action") and y is x:
            raise Violation(f"{route} of a {name} is the very same object")
        # the copy is independent of the original
        same(before, state(x), f"{route} changed the original", it=before[1][:3000])
        if route == "copy" and getattr(y, "__dict__", None) is not None and y is not x and y.__dict__ is x.__dict__:
            raise Violation(f"the copy of a {name} shares its state with the original")
        z = f(y)
        if z != x or h(z) != hx:
            raise Violation(f"{route} of {route} of a {name} is not equal to it", it=before[1][:3000])
    ctx.sample(before[1][:300])
