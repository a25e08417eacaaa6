"""C04: a domain survives printing and parsing."""
from checks import c01
from vlib.h import Builder, PARSER, canon, closed, features, valid_fixtures, gen, lang, reader, same, text_of, Violation

ID = "C04"
TECH = "round-trip monitor with an independent reader, over parsed and built domains"
RULE = (
    "one evaluation = one domain object printed, the text read independently and parsed again, contents compared; "
    "distinct = distinct sets of syntactic features"
)
REQUIRE = ["parsed", "built", "built_with_explicit_object", "fixtures"]
N = {"quick": 9000, "thorough": 200000}


class St:
    pass


def cases(tier):
    return N[tier]


def setup():
    st = St()
    st.parser = PARSER["domain"]()
    st.fix = valid_fixtures("domain")
    return st


def case(i, st, ctx):
    r = ctx.rng(i)
    if i < len(st.fix):
        ctx.count("fixtures")
        f, want = st.fix[i]
        text = text_of(f)
        obj = st.parser(text)
        roundtrip(st, ctx, obj, want)
        return
    g = gen.Gen(r, **c01.knobs(r))
    d = c01.make(g, "domain")
    want = lang.canon_domain(d)
    if i % 2:
        ctx.count("parsed")
        obj = st.parser(lang.plain(lang.tokens_domain(d)))
    else:
        ctx.count("built")
        explicit = "typing" in lang.extend(want["reqs"]) and r.random() < 0.3
        if explicit:
            ctx.count("built_with_explicit_object")
        obj = Builder(r).domain(want, explicit_object=explicit)
    roundtrip(st, ctx, obj, want)


def roundtrip(st, ctx, obj, want):
    want = closed(want)
    s1 = str(obj)
    ctx.seen(features(want))
    ctx.sample(s1[:700])
    ctx.peak("printed_length", len(s1))
    try:
        ref = lang.canon_domain(reader.read("domain", s1))
    except lang.Reject as e:
        raise Violation(f"the printed domain is not valid PDDL: {e}", text=s1[:6000])
    same(want, closed(ref), "the printed domain, read independently, differs", text=s1[:6000])
    again = st.parser(s1)
    same(want, closed(canon.domain(again)), "the printed domain, parsed again, differs", text=s1[:6000])
    s2 = str(again)
    if s2 != s1:
        raise Violation("printing, parsing and printing again changes the text", first=s1[:3000], second=s2[:3000])
    if str(obj) != s1:
        raise Violation("printing the same domain twice gives two texts", first=s1[:3000], second=str(obj)[:3000])
    if again.types == obj.types and not (again == obj and obj == again):
        raise Violation("the domain printed and parsed again is not equal to it", text=s1[:6000])
    # the parts on their own: they print as PDDL too
    for a in sorted(obj.actions, key=lambda a: a.name):
        if part(s1) .find(part(str(a))) < 0:
            raise Violation("an action prints differently on its own", action=str(a)[:2000], text=s1[:3000])


def part(s):
    return " ".join(s.split())
