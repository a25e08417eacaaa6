"""C23: names are names: letters first, then letters, digits, - and _; and no keyword."""
import re

from checks import c01
from vlib.h import gen, lang, Violation
from pddl.action import Action
from pddl.core import Domain, Plan, Problem
from pddl.custom_types import name, parse_function, parse_name, parse_type, to_names, to_type, to_types
from pddl.exceptions import PDDLValidationError
from pddl.logic.functions import NumericFunction
from pddl.logic.helpers import constants, variables
from pddl.logic.predicates import Predicate
from pddl.logic.terms import Constant, Variable
from pddl.requirements import Requirements

ID = "C23"
TECH = "input-validation monitor: hostile strings through every constructor that takes a name, against the lexical definition"
RULE = "one evaluation = one string given at one place, verdict compared with the definition of names; distinct = distinct (place, string)"
REQUIRE = ["accepted", "refused_shape", "refused_keyword", "special_allowed", "unicode", "already_names"]
N = {"quick": 150000, "thorough": 600000}
T = {Requirements.TYPING}
PLACES = {
    "name": [
        ("parse_name", lambda s: parse_name(s)), ("to_names", lambda s: to_names(["ok", s])[1]), ("domain", lambda s: Domain(s).name),
        ("problem", lambda s: Problem(s, domain_name="d").name), ("problem_domain", lambda s: Problem("p", domain_name=s).domain_name),
        ("action", lambda s: Action(s, []).name), ("predicate", lambda s: Predicate(s).name), ("predicate2", lambda s: Predicate(s, Constant("c")).name),
        ("constant", lambda s: Constant(s).name), ("typed constant", lambda s: Constant(s, "t").name), ("variable", lambda s: Variable(s).name),
        ("plan step", lambda s: Plan([("ok", []), (s, [Constant("c")])]).actions[1][0]),
        ("typed variable", lambda s: Variable(s, ["t"]).name),
    ],
    "type": [
        ("parse_type", lambda s: parse_type(s)), ("to_type", lambda s: to_type([s])[0]), ("constant type", lambda s: Constant("c", s).type_tag),
        ("variable type", lambda s: next(iter(Variable("v", [s]).type_tags))), ("second type", lambda s: Variable("v", ["qq-other", s]).type_tags and name_of(s)),
        ("retyped variable", lambda s: next(iter(Variable("v", ["t"]).with_type_tags([s]).type_tags))),
        ("types", lambda s: next(iter(Domain("d", T, types={s: None}).types))), ("to_types", lambda s: next(iter(to_types({s: None})))),
        ("function result", lambda s: Domain("d", {Requirements.FLUENTS}, functions={NumericFunction("f"): s}).functions[NumericFunction("f")]),
        ("variables()", lambda s: next(iter(variables("v", types=[s])[0].type_tags))), ("constants()", lambda s: constants("c", type_=s)[0].type_tag),
    ],
    "ancestor": [
        ("supertype", lambda s: Domain("d", T, types={"t-sub": s}).types["t-sub"]), ("to_types ancestor", lambda s: to_types({"t-sub": s})["t-sub"]),
    ],
    "function": [
        ("parse_function", lambda s: parse_function(s)), ("function", lambda s: NumericFunction(s).name),
        ("function2", lambda s: NumericFunction(s, Constant("c")).name),
    ],
    "split": [("variables", lambda s: variables(s)[0].name), ("constants", lambda s: constants(s)[0].name)],
}
ODD = [
    "", " ", "a ", " a", "a\n", "\na", "a\tb", "a b", "1a", "-a", "_a", "a.b", "a,b", "a?", "?a", "a(b", "a)", "a;b", "é", "aé", "éa", "a\u0301", "а", "Ａ", "a１",
    "a\u200b", "a\x00", "a'", 'a"', "a:b", ":a", "a#", "a+b", "a*b", "a/b", "a=b", "<a", "a@b", "a$", "a%", "a&b", "a|b", "a!", "a~", "a`", "a^", "a\\", "a[", "a{",
    "ß", "ǅ", "K", "ſ", "İ", "a\u00b2", "a\u0660", "a\r", "a\u2028", "a\u0085", "ª", "😀", "\ufeffa", "a\u00a0", "a\u00ad", "a‑b", "a–b", "a＿b", "a﹣b",
]
SHAPE = re.compile(r"[A-Za-z][A-Za-z0-9_\-]*\Z")


class St:
    pass


def cases(tier):
    return N[tier]


def setup():
    return St()


def name_of(s):
    return s


def a_string(r):
    x = r.random()
    if r.random() < 0.04:
        # long words, with or without a fault somewhere
        s = r.choice("abZ") + "".join(r.choice("abcXYZ019-_") for _ in range(r.choice([30, 62, 126, 250, 255, 1000, 5000]) + r.randrange(4)))
        k = r.choice([len(s), r.randrange(1, len(s))])
        return s if r.random() < 0.5 else s[:k] + r.choice([w for w in ODD if w]) + s[k:]
    if x < 0.18:
        return r.choice(sorted(lang.RESERVED))
    if x < 0.3:
        w = r.choice(sorted(lang.RESERVED))
        return r.choice([w.upper(), w.capitalize(), w + "1", w + "-", "x" + w, w + w, w[:-1], w + " ", w + "\n", "-" + w, w.swapcase()])
    if x < 0.5:
        return r.choice(ODD)
    if x < 0.7:
        g = gen.Gen(r)
        return g.names(1)[0]
    if x < 0.8:
        s = gen.Gen(r).names(1)[0]
        k = r.randrange(len(s) + 1)
        return s[:k] + r.choice(ODD) + s[k:]
    if x < 0.9:
        return "".join(r.choice("abZ09-_ .?é\n") for _ in range(r.randrange(0, 6)))
    return "".join(chr(r.choice([r.randrange(32, 127), r.randrange(128, 0x250), r.randrange(0x370, 0x600), r.randrange(0x2000, 0x2100)])) for _ in range(r.randrange(1, 4)))


class Text(str):
    pass


def wrapped(r, s, ctx):
    """The same word as another kind of string: as a name it may already be."""
    makers = [lambda: Text(s), lambda: name(s), lambda: parse_type(s), lambda: parse_function(s), lambda: Variable("v", [s]).type_tags, lambda: NumericFunction(s).name]
    try:
        x = r.choice(makers)()
    except ValueError:
        return s
    except PDDLValidationError:
        return s
    ctx.count("wrapped")
    return next(iter(x)) if isinstance(x, frozenset) else x


def case(i, st, ctx):
    r = ctx.rng(i)
    s = a_string(r)
    if not s.isascii():
        ctx.count("unicode")
    kinds = ["name", "type", "function", "ancestor", "split"]
    if r.random() < 0.4:
        s = wrapped(r, s, ctx)
    for kind in kinds:
        if kind == "ancestor" and s == "":
            continue  # no ancestor
        if kind == "split" and s.split() != [s]:
            continue
        allowed = {"type": {"object"}, "ancestor": {"object"}, "function": {"total-cost"}}.get(kind, set())
        keyword = s in lang.RESERVED - allowed
        shape = SHAPE.match(s) is not None
        for place, f in PLACES[kind] if kind != "name" else r.sample(PLACES[kind], 5):
            ctx.seen(place, s)
            try:
                got = f(s)
            except PDDLValidationError:
                if not keyword and shape:
                    raise Violation(f"{place}: {s!r} refused as a keyword")
                ctx.count("refused_keyword" if keyword else "refused_shape")
                continue
            except ValueError as e:
                if shape:
                    raise Violation(f"{place}: {s!r} refused ({e})")
                ctx.count("refused_shape")
                continue
            if keyword or not shape:
                raise Violation(f"{place}: {s!r} accepted, although it is {'a keyword' if keyword else 'no name'}")
            ctx.count("accepted")
            if s in lang.RESERVED:
                ctx.count("special_allowed")
            if got != s or not isinstance(got, str):
                raise Violation(f"{place}: {s!r} became {got!r}")
    if SHAPE.match(s) and s not in lang.RESERVED:
        ctx.count("already_names")
        n = name(s)
        if parse_name(n) is not n or name(n) is not n or Constant(n).name != s or hash(n) != hash(s) or n != s:
            raise Violation(f"a name made of a name differs: {s!r}")
    ctx.sample(repr(str(s)))


__all__ = ["c01"]
