"""What the checks share: the three languages, formulas at large, mutation of texts."""
import functools
import glob
import os
import re

from . import canon, env, gen, lang, reader
from .build import Builder
from .run import Violation

from lark.exceptions import LarkError
from pddl.exceptions import PDDLError
from pddl.parser.domain import DomainParser
from pddl.parser.plan import PlanParser
from pddl.parser.problem import ProblemParser

PARSER = {"domain": DomainParser, "problem": ProblemParser, "plan": PlanParser}
TOKENS = {"domain": lang.tokens_domain, "problem": lang.tokens_problem, "plan": lang.tokens_plan}
SURF = {"domain": lang.canon_domain, "problem": lang.canon_problem, "plan": lang.canon_plan}
OBJ = {"domain": canon.domain, "problem": canon.problem, "plan": canon.plan}
ORDERLY = (LarkError, PDDLError)
KINDS = ("domain", "problem", "plan")


def closed(c):
    """The types with the implicit supertypes made explicit (printing does that)."""
    if isinstance(c, dict) and "types" in c:
        c = dict(c)
        types = dict(c["types"])
        for p in list(types.values()):
            if p is not None:
                types.setdefault(p, None)
        c["types"] = types
    return c


def full(x):
    """Canonical value of any object of the library."""
    name = type(x).__name__
    if name == "Plan":
        return tuple((str(n), tuple(full(a) for a in args)) for n, args in x.actions)
    if name in ("Domain", "Problem"):
        return OBJ[name.lower()](x)
    if name == "Action":
        return canon.action(x)
    if name in ("Variable", "Constant"):
        return canon.term(x, True)
    return canon.formula(x)


def same(exp, got, what, **data):
    if exp != got:
        raise Violation(f"{what}: {canon.diff(exp, got)[:1500]}", **data)


@functools.lru_cache(None)
def fixture_files():
    out = []
    for f in sorted(glob.glob(env.FIXTURES + "/**/*", recursive=True)):
        if os.path.isfile(f):
            m = re.search(r"^[^;]*?\(\s*define\s*\(\s*(domain|problem)\b", text_of(f), re.M)
            out.append((m.group(1) if m else "plan", f))
    return out


@functools.lru_cache(None)
def valid_fixtures(kind):
    """The files of the repository that are unquestionably well formed, with what they say."""
    out = []
    for k, f in fixture_files():
        if k == kind:
            try:
                out.append((f, SURF[kind](reader.read(kind, text_of(f)))))
            except (lang.Reject, lang.Unsure):
                pass
    return out


def text_of(f):
    with open(f) as fh:
        return fh.read()


POOL = (
    "( ) ( ) ? - = < >= > <= and or not imply forall exists when oneof either object :action :effect :precondition "
    ":parameters :derived :requirements :typing :adl :strips :init :goal :metric :objects :domain :types :constants "
    ":predicates :functions number 3 0.5 + * / ?x x y total-cost assign increase scale-up minimize maximize ?and define "
    "domain problem 1.2.3 -5 .5 5. 1e5 +1 % :foo # ?3 _a 3a a.b \" ' [ { , ! @ $ :equality :fluents A AND"
).split()


def mutate(toks, r, pool=POOL):
    """Break (or not) a token list, in a few places."""
    toks = list(toks)
    for _ in range(r.choice([1, 1, 1, 1, 2, 3])):
        if not toks:
            break
        i = r.randrange(len(toks))
        x = r.random()
        if x < 0.22:
            del toks[i]
        elif x < 0.34:
            toks.insert(i, r.choice(toks))
        elif x < 0.48:
            toks.insert(i, r.choice(pool))
        elif x < 0.65:
            toks[i] = r.choice(toks)
        elif x < 0.8:
            toks[i] = r.choice(pool)
        elif x < 0.88:
            j = r.randrange(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif x < 0.94:
            j = min(len(toks), i + r.randrange(1, 12))
            k = r.randrange(len(toks))
            toks[k:k] = toks[i:j]
        else:
            del toks[i:i + r.randrange(1, 12)]
    return toks


def parse(parser, text):
    """('ok', object) or ('err', exception)."""
    try:
        return "ok", parser(text)
    except RecursionError as e:
        return "err", e
    except Exception as e:  # noqa: B902
        return "err", e


def trio(rng, **knobs):
    """A domain, a problem of it and a plan of it."""
    g = gen.Gen(rng, **knobs)
    d = g.domain()
    p = g.problem(d)
    pl = g.plan(d)
    return g, d, p, pl


def features(x, acc=None):
    """Kinds of nodes in a canonical value: the signature of what a case exercised."""
    acc = set() if acc is None else acc
    stack = [x]
    while stack:
        v = stack.pop()
        if isinstance(v, dict):
            for k, w in v.items():
                acc.add((k, min(len(w), 4)) if isinstance(w, (frozenset, tuple, dict)) else k)
                stack.append(w)
        elif isinstance(v, (tuple, frozenset)):
            if v and isinstance(v, tuple) and isinstance(v[0], str):
                acc.add((v[0] if v[0] in TAGS else "~", len(v)))
            stack.extend(v)
    return tuple(sorted(map(str, acc)))


TAGS = {
    "pred", "eq", "and", "or", "not", "imply", "oneof", "forall", "exists", "eforall", "when", "cmp", "fun", "num", "op",
    "var", "const",
}

__all__ = [
    "PARSER", "TOKENS", "SURF", "OBJ", "ORDERLY", "KINDS", "closed", "full", "same", "fixture_files", "valid_fixtures", "text_of", "mutate",
    "parse", "trio", "features", "Builder", "Violation", "canon", "gen", "lang", "reader", "env",
]
