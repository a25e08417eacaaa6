"""C05: a problem survives printing and parsing, with and without its domain attached."""
from checks import c01
from vlib.h import Builder, PARSER, canon, features, valid_fixtures, gen, lang, reader, same, text_of, Violation
from pddl.core import Problem

ID = "C05"
TECH = "round-trip monitor with an independent reader, over parsed and built problems"
RULE = (
    "one evaluation = one problem object printed, the text read independently and parsed again, contents compared; "
    "distinct = distinct sets of syntactic features"
)
REQUIRE = ["parsed", "built", "attached_by_setter", "attached_by_constructor", "fixtures"]
N = {"quick": 9000, "thorough": 200000}


class St:
    pass


def cases(tier):
    return N[tier]


def setup():
    st = St()
    st.parser = PARSER["problem"]()
    st.dparser = PARSER["domain"]()
    st.fix = valid_fixtures("problem")
    return st


def case(i, st, ctx):
    r = ctx.rng(i)
    if i < 200:
        ctx.count("fixtures")
        f, want = r.choice(st.fix)
        text = text_of(f)
        obj = st.parser(text)
        roundtrip(st, ctx, obj, want)
        return
    g = gen.Gen(r, **c01.knobs(r))
    d = g.domain()
    p = g.problem(d)
    want = lang.canon_problem(p)
    if i % 2:
        ctx.count("parsed")
        obj = st.parser(lang.plain(lang.tokens_problem(p)))
    else:
        ctx.count("built")
        obj = Builder(r).problem(want)
    roundtrip(st, ctx, obj, want)
    if want["reqs"] and r.random() < 0.1:
        pass
    if i % 3 == 0:
        # the same problem, knowing its domain: it prints the requirements of the domain
        dom = st.dparser(lang.plain(lang.tokens_domain(d)))
        want = dict(want, reqs=frozenset(d["reqs"] or ()))
        if r.random() < 0.5:
            ctx.count("attached_by_setter")
            obj.domain = dom
        else:
            ctx.count("attached_by_constructor")
            obj = Builder(r).problem(want, domain=dom)
        back = roundtrip(st, ctx, obj, want, attached=True)
        back.domain = dom
        if not (back == obj and obj == back):
            raise Violation("the problem printed, parsed and attached again is not equal to it", text=str(obj)[:6000])


def roundtrip(st, ctx, obj, want, attached=False):
    s1 = str(obj)
    ctx.seen(attached, features(want))
    ctx.sample(s1[:700])
    ctx.peak("printed_length", len(s1))
    try:
        ref = lang.canon_problem(reader.read("problem", s1))
    except lang.Reject as e:
        raise Violation(f"the printed problem is not valid PDDL: {e}", text=s1[:6000])
    same(want, ref, "the printed problem, read independently, differs", text=s1[:6000])
    same({o: dict(want["objects"])[o] for o, _ in want["objects"]},
         {str(c.name): c.type_tag for c in obj.objects}, "the objects of the problem differ", text=s1[:6000])
    again = st.parser(s1)
    same(want, canon.problem(again), "the printed problem, parsed again, differs", text=s1[:6000])
    s2 = str(again)
    if s2 != s1 or str(obj) != s1:
        raise Violation("printing, parsing and printing again changes the text", first=s1[:3000], second=s2[:3000])
    if not attached and not (again == obj and obj == again):
        raise Violation("the problem printed and parsed again is not equal to it", text=s1[:6000])
    return again
