"""C27: the same answers in every mode of the interpreter, whatever is imported first."""
import os
import subprocess
import sys
import tempfile

from checks import c01
from vlib import env
from vlib.ask import REFUSED, Answers
from vlib.h import KINDS, TOKENS, gen, lang, mutate, Violation
from vlib.peer import Peer

ID = "C27"
TECH = "differential monitor: the same questions to interpreters run in different modes"
RULE = "one evaluation = one question answered by one interpreter in one mode and compared; distinct = distinct (mode, question)"
REQUIRE = ["asked", "refusals", "texts", "broken_texts", "files", "fits", "built", "copies", "imports"]
N = {"quick": 900, "thorough": 20000}
TIMEOUT = 120
MODES = {
    "-O": (["-O"], {}),
    "-OO": (["-OO"], {}),
    "warnings are errors": (["-W", "error", "-bb"], {}),
    "development mode": (["-X", "dev"], {"PYTHONMALLOC": "debug"}),
    "another locale": (["-X", "utf8=0"], {"LC_ALL": "C", "PYTHONCOERCECLOCALE": "0", "TZ": "Asia/Tokyo"}),
    "isolated, small integers": (["-I", "-X", "int_max_str_digits=640"], {}),
}
# the modules there are to import (the ones that a user can name)
MODULES = (
    "pddl pddl.__main__ pddl._validation pddl.action pddl.core pddl.custom_types pddl.exceptions pddl.formatter pddl.helpers pddl.helpers.base "
    "pddl.helpers.cache_hash pddl.logic pddl.logic.base pddl.logic.effects pddl.logic.functions pddl.logic.helpers pddl.logic.predicates "
    "pddl.logic.terms pddl.parser pddl.parser.base pddl.parser.domain pddl.parser.plan pddl.parser.problem pddl.parser.symbols "
    "pddl.parser.typed_list_parser pddl.requirements"
).split()


class St:
    pass


def cases(tier):
    return N[tier]


def setup():
    st = St()
    st.here = Answers()
    st.peers = {}
    return st


def teardown(st, ctx):
    for p in st.peers.values():
        p.close()


def peer(st, mode, r):
    if mode not in st.peers:
        flags, more = MODES[mode]
        st.peers[mode] = Peer(r.randrange(1, 10**6), flags, **more)
    return st.peers[mode]


def questions(r, ctx):
    g = gen.Gen(r, **c01.knobs(r))
    d = g.domain()
    p = g.problem(d)
    pl = g.plan(d)
    asts = dict(zip(KINDS, (d, p, pl)))
    toks = {k: TOKENS[k](a) for k, a in asts.items()}
    text = {k: " ".join(t) for k, t in toks.items()}
    out = []
    for k in KINDS:
        ctx.count("texts")
        out.append(("parse", k, text[k]))
        for _ in range(3 if k != "plan" else 1):
            ctx.count("broken_texts")
            out.append(("parse", k, " ".join(mutate(toks[k], r))))
    k = r.choice(KINDS)
    ctx.count("files")
    out.append(("file", k, text[k] + r.choice(["", "\n; é\n", " ; comment", "\r\n"])))
    ctx.count("fits")
    out.append(("trio", *text.values()))
    out.append(("trio", text["domain"], " ".join(mutate(toks["problem"], r, toks["domain"])), " ".join(mutate(toks["plan"], r, toks["problem"]))))
    ctx.count("built", 2)
    out.append(("built", "domain", lang.canon_domain(d)))
    out.append(("built", "problem", lang.canon_problem(p)))
    ctx.count("copies")
    out.append(("copies", r.choice(KINDS[:2]), text["domain"]))
    out.append(("copies", "domain", text["domain"]))
    return out


def case(i, st, ctx):
    r = ctx.rng(i)
    if i < len(MODULES):
        imports(i, r, ctx)
    mode = sorted(MODES)[i % len(MODES)]
    qs = questions(r, ctx)
    names = sorted(REFUSED)
    some = names if i < len(MODES) else r.sample(names, 8)
    ctx.count("refusals", len(some))
    qs += [("refused", n) for n in some]
    here = st.here.all(qs)
    there = peer(st, mode, r).ask("ask", qs)
    for q, a, b in zip(qs, here, there):
        ctx.count("asked")
        ctx.count("mode " + mode)
        ctx.seen(mode, q[:2] if q[0] != "refused" else q, a)
        if q[0] == "refused":
            for where, x in (("this one", a), (mode, b)):
                if x[0] == "ok":
                    raise Violation(f"interpreter {where}: accepted although it must be refused: {q[1]}")
        if b[0] == "err" and b[1] == "UnicodeDecodeError" and q[0] == "file" and "é" in q[2]:
            continue  # the encoding of files is the one of the locale
        if a != b and not any_digits(q):
            raise Violation(f"mode {mode}: the answer to {str(q)[:1500]} is {str(b)[:700]} and elsewhere {str(a)[:700]}", text=str(q)[:6000])


def any_digits(q):
    """Integers too long for a mode with short ones."""
    return any(len(w) > 300 and w.isdigit() for x in q if isinstance(x, str) for w in x.replace(".", " ").split())


PROBE = """
import builtins, decimal, gc, locale, logging, os, random, signal, sys, threading, warnings
# what lark brings along is not at issue
import lark
def look():
    c = decimal.getcontext()
    return dict(env=sorted(os.environ.items()), cwd=os.getcwd(), path=list(sys.path), recursion=sys.getrecursionlimit(), switch=sys.getswitchinterval(),
                trace=(sys.gettrace(), sys.getprofile()), hooks=(sys.excepthook, sys.displayhook, threading.excepthook, sys.unraisablehook, sys.breakpointhook),
                stdio=(sys.stdin, sys.stdout, sys.stderr), files=sorted(os.listdir('.')), traceback=getattr(sys, 'tracebacklimit', None), argv=list(sys.argv),
                gc=(gc.isenabled(), gc.get_threshold()), decimal=(c.prec, c.rounding, c.Emin, c.Emax, str(c).rpartition('traps=')[2]),
                locale=locale.setlocale(locale.LC_ALL), logging=(logging.getLogger().level, len(logging.getLogger().handlers), logging.raiseExceptions),
                random=random.getstate(), signals=[signal.getsignal(k) for k in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGALRM)],
                threads=threading.active_count(), builtins=set(vars(builtins)), digits=sys.get_int_max_str_digits(), finders=(len(sys.meta_path), len(sys.path_hooks)),
                bytecode=sys.dont_write_bytecode)
def filters():
    return [tuple(map(str, f)) for f in warnings.filters]
before, warned = look(), filters()
for m in sys.argv[1].split(','):
    __import__(m)
after = look()
for k in before:
    assert before[k] == after[k], ('importing changed', k, before[k], after[k])
assert filters() == warned, ('importing changed', 'the warnings filters')
from pddl.parser.domain import DomainParser
from pddl.parser.problem import ProblemParser
from pddl.parser.plan import PlanParser
d = DomainParser()('(define (domain d) (:requirements :adl :non-deterministic) (:types t) (:predicates (p ?x - t)) (:action a :parameters (?x - t)'
                   ' :precondition (forall (?y - t) (or (p ?x) (not (p ?y)))) :effect (oneof (p ?x) (forall (?z - t) (when (p ?z) (not (p ?z)))))))')
p = ProblemParser()('(define (problem p) (:domain d) (:objects o - t) (:init (p o)) (:goal (p o)))')
l = PlanParser()('(a o)')
p.check(d)
l.check(d, p)
assert DomainParser()(str(d)) == d and ProblemParser()(str(p)) == p and len(l.instantiate(d)) == 1
"""


def imports(i, r, ctx):
    """One module first, then the others in any order."""
    first = MODULES[i]
    rest = [m for m in MODULES if m != first]
    r.shuffle(rest)
    for flags in ([], ["-OO", "-W", "error"]):
        ctx.count("imports")
        with tempfile.TemporaryDirectory() as d:
            place = r.choice([{}, {"LC_ALL": "C.UTF-8", "LANG": "C.UTF-8"}, {"LC_ALL": "POSIX"}, {"TZ": "Asia/Kolkata"}])
            e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
            x = subprocess.run(
                [sys.executable, "-B", *flags, "-c", PROBE, ",".join([first, *rest])], cwd=d, capture_output=True, text=True,
                env=dict(e, **place, PYTHONPATH=env.REPO, PYTHONHASHSEED="1"), timeout=100,
            )
        if "ModuleNotFoundError" in x.stderr and any(f"No module named '{m}'" in x.stderr for m in MODULES):
            ctx.count("no_such_module")
            continue
        if x.returncode or x.stdout or x.stderr:
            raise Violation(f"importing {first} first ({' '.join(flags)}), then {rest[:6]}...: {x.stderr[-700:]} {x.stdout[-200:]}")
