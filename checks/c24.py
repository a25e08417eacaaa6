"""C24: the command line and the file helpers: print what was read, or fail; and touch nothing."""
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

from checks import c01
from vlib import env
from vlib.h import KINDS, OBJ, PARSER, TOKENS, fixture_files, gen, lang, mutate, parse, same, valid_fixtures, Violation
import pddl

ID = "C24"
TECH = "process monitor: exit status, output, files and descriptors of real runs, against the objects read in-process"
RULE = (
    "one evaluation = one run of the command line, or one call of a file helper, with its exit status, output, error and the files "
    "around it compared with the oracle; distinct = distinct (files, options, outcome)"
)
REQUIRE = ["not_text", "no_room", "runs", "runs_ok", "runs_failed", "quiet", "domain_only", "with_problem", "with_plan", "unfit_problem", "unfit_plan", "missing_file", "helper_ok", "helper_failed"]
N = {"quick": 720, "thorough": 9000}
TIMEOUT = 120
HELPER = {"domain": pddl.parse_domain, "problem": pddl.parse_problem, "plan": pddl.parse_plan}


class St:
    pass


def cases(tier):
    return N[tier]


def setup():
    st = St()
    st.p = {k: PARSER[k]() for k in KINDS}
    st.dir = tempfile.mkdtemp(prefix="verif-c24-")
    st.fix = {k: [f for f, _ in valid_fixtures(k) if os.path.getsize(f) < 20000] for k in KINDS}
    return st


def teardown(st, ctx):
    shutil.rmtree(st.dir, ignore_errors=True)


def listing(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for f in sorted(dirs):
            out[os.path.join(root, f)] = "dir"
        for f in sorted(files):
            p = os.path.join(root, f)
            with open(p, "rb") as fh:
                out[p] = (fh.read(), os.stat(p).st_mtime_ns, os.stat(p).st_mode)
    return out


def case(i, st, ctx):
    r = ctx.rng(i)
    d = os.path.join(st.dir, f"{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    try:
        g = gen.Gen(r, **c01.knobs(r))
        ast = g.domain()
        prob = g.problem(ast)
        asts = {"domain": ast, "problem": prob, "plan": g.plan(ast)}
        texts = {}
        for k in KINDS:
            toks = TOKENS[k](asts[k])
            x = r.random()
            if x < 0.07:
                toks = mutate(toks, r)
            if k == "problem" and r.random() < 0.12:
                toks = [t if t != asts["domain"]["name"] else t + "-other" for t in toks]
            if k == "plan" and r.random() < 0.2:
                toks = toks + ["(", r.choice(["no-such", *(s[1] for s in ast["structs"])]), r.choice(["nobody", *g.consts]), ")"]
            texts[k] = lang.layout(toks, r) if r.random() < 0.5 else " ".join(toks)
        names = r.choice([("domain.pddl", "problem.pddl", "plan.txt"), ("d 1.pddl", "p é.pddl", "-x.plan"), ("a", "b", "c")])
        paths = {}
        for k, n in zip(KINDS, names):
            paths[k] = os.path.join(d, n)
            with open(paths[k], "w", encoding="utf-8", newline="") as f:
                f.write(texts[k])
        helpers(r, st, ctx, d, texts, paths)
        if i % 2 == 0:
            command(r, st, ctx, d, texts, paths)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def read(st, kind, text):
    # what a file opened as text holds
    return parse(st.p[kind], text.replace("\r\n", "\n").replace("\r", "\n"))


def helpers(r, st, ctx, d, texts, paths):
    before = listing(d)
    fds = sorted(os.listdir("/proc/self/fd"))
    for k in KINDS:
        want, x = read(st, k, texts[k])
        arg = pathlib.Path(paths[k]) if r.random() < 0.5 else paths[k]
        got, y = parse(HELPER[k], arg)
        ctx.seen("helper", k, texts[k])
        if want != got:
            raise Violation(f"the file helper for a {k} gives {got} ({y!r}), the parser gives {want} ({x!r})"[:1500], text=texts[k][:3000])
        if want == "ok":
            ctx.count("helper_ok")
            same(OBJ[k](x), OBJ[k](y), f"{k} read from a file", text=texts[k][:3000])
        else:
            ctx.count("helper_failed")
            if type(x) is not type(y):
                raise Violation(f"the file helper for a {k} raises {type(y).__name__}, the parser {type(x).__name__}", text=texts[k][:3000])
    if r.random() < 0.3:
        not_text(r, ctx, d, texts)
        before = listing(d)
    k = r.choice(KINDS)
    got, y = parse(HELPER[k], os.path.join(d, "not-there"))
    if got == "ok" or not isinstance(y, FileNotFoundError):
        raise Violation(f"reading a missing {k} gives {got} {y!r}")
    del y, got
    if sorted(os.listdir("/proc/self/fd")) != fds:
        raise Violation("a file stays open after reading")
    if listing(d) != before:
        raise Violation("reading files changed them or made new ones")


def not_text(r, ctx, d, texts):
    """A file with bytes that are no text in any encoding a locale here has: nothing is read out of it."""
    k = r.choice(KINDS)
    raw = texts[k].encode()
    spots = [i + 1 for i in range(1, len(raw) - 1) if raw[i:i + 1].isalnum() and raw[i + 1:i + 2].isalnum()]
    if ";" in texts[k] or not spots:
        return
    i = r.choice(spots)
    fn = os.path.join(d, "not-text")
    with open(fn, "wb") as f:
        f.write(raw[:i] + r.choice([b"\xff", b"\x80", b"\xc3", b"\xed\xa0\x80", b"\x00", b"\xfe\xff"]) + raw[i:])
    got, y = parse(HELPER[k], fn)
    ctx.count("not_text")
    if got == "ok":
        raise Violation(f"a {k} is read from a file that holds bytes which are not text", text=texts[k][:2000])


def command(r, st, ctx, d, texts, paths):
    n = r.choice([1, 1, 2, 2, 3, 3, 3])
    args = [paths[k] for k in KINDS[:n]]
    missing = None
    if r.random() < 0.08:
        missing = r.randrange(n)
        args[missing] = r.choice([os.path.join(d, "not-there"), d])
    quiet = r.random() < 0.3
    opts = [r.choice(["-q", "--quiet"])] if quiet else []
    cwd = d
    if r.random() < 0.3 and missing is None:
        args = [os.path.relpath(a, d) for a in args]
    if any(a.startswith("-") for a in args):
        args = ["--"] + args
    cmd = [*opts, *args] if args[0] == "--" or r.random() < 0.6 else [*args, *opts]
    want_out, want_ok, why = oracle(st, ctx, texts, n, missing)
    before = listing(d)
    e = dict(os.environ, PYTHONPATH=env.REPO, PYTHONIOENCODING="utf-8", PYTHONHASHSEED="random", PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8")
    if r.random() < 0.12:
        full_output(ctx, cmd, cwd, e, want_ok, quiet, why)
        if listing(d) != before:
            raise Violation("a run without room for its output changed files, or left new ones", cmd=cmd)
        return
    p = subprocess.run([sys.executable, "-m", "pddl", *cmd], cwd=cwd, env=e, capture_output=True, timeout=100, stdin=subprocess.DEVNULL)
    out, err = p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    ctx.count("runs")
    ctx.count("quiet", int(quiet))
    ctx.count(["", "domain_only", "with_problem", "with_plan"][n])
    ctx.seen("run", cmd, tuple(texts[k] for k in KINDS[:n]), why)
    ctx.sample(f"{opts} {n} files: {why}; exit {p.returncode}")
    show = dict(cmd=cmd, why=why, out=out[:1500], err=err[-1500:], domain=texts["domain"][:2500], problem=texts["problem"][:1500], plan=texts["plan"][:500])
    if listing(d) != before:
        raise Violation("a run changed files, or left new ones", **show)
    if want_ok:
        ctx.count("runs_ok")
        if p.returncode != 0:
            raise Violation(f"the files are fine, the exit status is {p.returncode}", **show)
        if err:
            raise Violation("the files are fine, yet something goes to the standard error", **show)
    else:
        ctx.count("runs_failed")
        if p.returncode == 0:
            raise Violation(f"the run should fail ({why}), the exit status is 0", **show)
        if p.returncode < 0:
            raise Violation(f"killed by signal {-p.returncode}", **show)
        if not err.strip():
            raise Violation("a failure without a word on the standard error", **show)
    expected = "" if quiet else want_out
    if out != expected:
        raise Violation("the output is not what was read, printed", expected=expected[:2000], **show)


def full_output(ctx, cmd, cwd, e, want_ok, quiet, why):
    """Nothing can be written to the output: what was to be printed is not, so it is no success."""
    with open("/dev/full", "w") as out:
        p = subprocess.run([sys.executable, "-m", "pddl", *cmd], cwd=cwd, env=e, stdout=out, stderr=subprocess.PIPE, timeout=100, stdin=subprocess.DEVNULL)
    ctx.count("no_room")
    ctx.sample(f"no room for the output, quiet {quiet}: {why}; exit {p.returncode}")
    good = want_ok and quiet
    if (p.returncode == 0) != good:
        raise Violation(
            f"no room for the output, quiet {quiet}: the exit status is {p.returncode} ({why})", cmd=cmd, err=p.stderr.decode("utf-8", "replace")[-1500:])


def oracle(st, ctx, texts, n, missing):
    """(output, success, why)."""
    if missing is not None:
        ctx.count("missing_file")
        return "", False, "missing"
    got, dom = read(st, "domain", texts["domain"])
    if got != "ok":
        return "", False, "domain"
    out = str(dom) + "\n"
    if n == 1:
        return out, True, "ok"
    got, prob = read(st, "problem", texts["problem"])
    if got != "ok":
        return out, False, "problem"
    try:
        prob.check(dom)
    except Exception:  # noqa: B902
        ctx.count("unfit_problem")
        return out, False, "unfit problem"
    out += str(prob) + "\n"
    if n == 2:
        return out, True, "ok"
    got, plan = read(st, "plan", texts["plan"])
    if got != "ok":
        return out, False, "plan"
    try:
        plan.check(dom, prob)
    except Exception:  # noqa: B902
        ctx.count("unfit_plan")
        return out, False, "unfit plan"
    return out + str(plan) + "\n", True, "ok"


__all__ = ["fixture_files"]
