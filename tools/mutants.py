#!/opt/venv/bin/python
"""Mutation run: small changes of the library, one at a time, in scratch copies; which checks notice?

usage: mutants.py RESULTS.jsonl [--sample K] [--files a.py,b.py] [--scale 0.1] [--seed 1]
Every mutant is one small edit of one file of pddl/. The checks run at a reduced size, in the order given, until one notices.
Mutants nobody notices are printed with their diff: equivalent, or a gap. Only /tmp is written.
"""
import argparse
import ast
import concurrent.futures as cf
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORDER = "C01 C02 C04 C05 C17 C14 C22 C16 C15 C08 C09 C06 C20 C03 C10 C11 C23 C21 C12 C19 C18 C07 C25 C26 C29 C24 C27 C28 C13".split()


PAIRS = {}
for _x, _y in (("left", "right"), ("condition", "effect"), ("precondition", "effect"), ("predicates", "derived_predicates"), ("constants", "objects"),
               ("terms", "parameters"), ("init", "goal"), ("name", "type_tag"), ("type_tags", "name"), ("keys", "values"), ("variables", "condition"),
               ("operands", "terms"), ("_constants", "_predicates"), ("_actions", "_derived_predicates"), ("domain_name", "name"), ("lower", "upper")):
    PAIRS.setdefault(_x, _y)
    PAIRS.setdefault(_y, _x)


def mutations(src):
    """(line, description, new source) of every mutant of a source."""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln.encode()))
    raw = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def put(n, text):
        a, b = span(n)
        return (raw[:a] + text.encode() + raw[b:]).decode()

    docs = set()
    anns = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0]))
            docs.add(id(n.body[0].value))
        for f in ("annotation", "returns"):
            x = getattr(n, f, None)
            if x is not None:
                anns |= {id(y) for y in ast.walk(x)}
        if isinstance(n, (ast.JoinedStr,)):
            for y in ast.walk(n):
                if y is not n and isinstance(y, ast.Constant):
                    docs.add(id(y))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            anns |= {id(y) for y in ast.walk(n)}
        if isinstance(n, ast.Raise) and n.exc is not None:
            anns |= {id(y) for y in ast.walk(n.exc)}
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            for dd in n.decorator_list:
                anns |= {id(y) for y in ast.walk(dd)}
    out = []

    def add(n, text, what):
        out.append((n.lineno, what, put(n, text)))

    SWAP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
    for n in ast.walk(tree):
        if id(n) in anns or id(n) in docs:
            continue
        u = ast.unparse
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = SWAP[type(n.ops[0])]
            add(n, f"({u(n.left)} {op} {u(n.comparators[0])})", f"compare -> {op}")
            if isinstance(n.ops[0], (ast.Lt, ast.Gt)):
                add(n, f"({u(n.comparators[0])} {'<' if isinstance(n.ops[0], ast.Lt) else '>'} {u(n.left)})", "operands swapped")
        if isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + op.join(f"({u(v)})" for v in n.values) + ")", f"bool ->{op}")
            for k in range(len(n.values)):
                rest = n.values[:k] + n.values[k + 1:]
                o = " and " if isinstance(n.op, ast.And) else " or "
                add(n, "(" + o.join(f"({u(v)})" for v in rest) + ")", f"operand {k} dropped")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, f"({u(n.operand)})", "not dropped")
        if isinstance(n, ast.If):
            add(n.test, "True", "if True")
            add(n.test, "False", "if False")
        if isinstance(n, ast.IfExp):
            add(n, f"({u(n.body)})", "ifexp body")
            add(n, f"({u(n.orelse)})", "ifexp else")
        if isinstance(n, ast.While):
            pass
        if isinstance(n, ast.Constant) and n.value is not None and n.value is not Ellipsis:
            if isinstance(n.value, bool):
                add(n, str(not n.value), "bool flipped")
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), "int + 1")
                add(n, f"({n.value - 1})", "int - 1")
            elif isinstance(n.value, str) and n.value and ' ' not in n.value.strip():
                add(n, repr(n.value + "x"), "string changed")
                add(n, "''", "string emptied")
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, "pass", "call dropped")
        if isinstance(n, ast.Raise) and False:
            add(n, "pass", "raise dropped")
        if isinstance(n, ast.Return) and False and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            add(n, "return None", "return None")
        if isinstance(n, ast.Assign) and len(n.targets) == 1:
            add(n, f"{u(n.targets[0])} = None", "assign None")
        if isinstance(n, ast.AugAssign):
            add(n, "pass", "augassign dropped")
        if isinstance(n, (ast.Continue, ast.Break)):
            add(n, "pass", "jump dropped")
        if isinstance(n, ast.Call):
            f = u(n.func)
            if f in ("sorted", "set", "list", "tuple", "frozenset", "dict", "str", "reversed", "copy.copy", "deepcopy") and len(n.args) == 1:
                add(n, f"({u(n.args[0])})", f"{f}() dropped")
            if len(n.args) >= 2:
                m = copy.deepcopy(n)
                m.args[0], m.args[1] = m.args[1], m.args[0]
                add(n, u(m), "first two arguments swapped")
            if len(n.args) >= 2 or (n.args and n.keywords):
                m = copy.deepcopy(n)
                del m.args[-1]
                add(n, u(m), "last argument dropped")
            if n.keywords:
                for k in range(len(n.keywords)):
                    m = copy.deepcopy(n)
                    del m.keywords[k]
                    add(n, u(m), f"keyword {n.keywords[k].arg} dropped")
        if isinstance(n, ast.BinOp):
            for t, o in ((ast.Add, "-"), (ast.Sub, "+"), (ast.BitOr, "&"), (ast.BitAnd, "|")):
                if isinstance(n.op, t):
                    add(n, f"({u(n.left)} {o} {u(n.right)})", f"binop {o}")
            add(n, f"({u(n.left)})", "right operand dropped")
            add(n, f"({u(n.right)})", "left operand dropped")
        if isinstance(n, (ast.Set, ast.Tuple, ast.List)) and isinstance(getattr(n, "ctx", ast.Load()), ast.Load) and len(n.elts) >= 2:
            for k in range(len(n.elts)):
                m = copy.deepcopy(n)
                del m.elts[k]
                add(n, u(m) if not (isinstance(n, ast.Tuple)) else "(" + ", ".join(map(u, m.elts)) + ",)", f"element {k} dropped")
        if isinstance(n, ast.FunctionDef) and n.name.startswith("__") and n.name in ("__hash__", "__eq__", "__lt__", "__getstate__", "__setstate__", "__ne__"):
            out.append((n.lineno, f"{n.name} renamed", put(n, ast.unparse(n).replace(f"def {n.name}", f"def {n.name}x", 1).replace("\n", "\n" + " " * n.col_offset))))
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in PAIRS:
            add(n, f"{u(n.value)}.{PAIRS[n.attr]}", f"{n.attr} -> {PAIRS[n.attr]}")
        if isinstance(n, ast.FunctionDef):
            names = sorted({a.arg for a in n.args.args if a.arg not in ("self", "cls")} | {
                m.id for m in ast.walk(n) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)})
            for m in ast.walk(n):
                if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Load) and m.id in names and len(names) > 1 and id(m) not in anns:
                    k = names[(names.index(m.id) + 1) % len(names)]
                    out.append((m.lineno, f"{m.id} -> {k}", put(m, k)))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            add(n, u(n.value), "slice dropped")
        if isinstance(n, (ast.GeneratorExp, ast.ListComp, ast.SetComp)):
            for g in n.generators:
                for c in g.ifs:
                    add(c, "True", "filter dropped")
    seen, res = set(), []
    for ln, what, text in out:
        if text in seen or text == src:
            continue
        seen.add(text)
        try:
            compile(text, "m", "exec")
        except (SyntaxError, ValueError):
            continue
        res.append((ln, what, text))
    return res


def judge(job):
    rel, ln, what, text, scale, seed, checks = job
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        repo = os.path.join(d, "repo")
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".git", "__pycache__", "docs"))
        with open(os.path.join(repo, rel), "w") as f:
            f.write(text)
        env = dict(os.environ, VERIF_REPO=repo, VERIF_SCALE=str(scale), VERIF_NPROC="1", VERIF_OUT=d, VERIF_SEED=str(seed), VERIF_TIER="quick")
        env.pop("PYTHONHASHSEED", None)
        for c in checks:
            if not os.path.exists(os.path.join(V, "checks", c.lower() + ".py")):
                continue
            try:
                p = subprocess.run([os.path.join(V, "check.py"), c], env=env, capture_output=True, text=True, timeout=400)
            except subprocess.TimeoutExpired:
                return rel, ln, what, c, "TIMEOUT"
            if p.returncode == 1:
                out = p.stdout.splitlines()
                return rel, ln, what, c if p.stdout.startswith("VIOLATION") else c + "!", (out[1] if len(out) > 1 else p.stderr[-200:])[:200]
            if p.returncode not in (0, 3):
                return rel, ln, what, c + "?", p.stderr[-300:]
        return rel, ln, what, None, ""
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--files", default="")
    ap.add_argument("--scale", type=float, default=0.1)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--checks", default="")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("--what", default="", help="only the mutants whose description contains this")
    ap.add_argument("--only", default="", help="a results file: only the mutants it lists as unnoticed")
    a = ap.parse_args()
    only = None
    if a.only:
        only = {tuple(json.loads(ln)[:3]) for ln in open(a.only) if json.loads(ln)[3] is None}
    jobs = []
    for root, _, files in os.walk("/repo/pddl"):
        for f in sorted(files):
            rel = os.path.relpath(os.path.join(root, f), "/repo")
            if not f.endswith(".py") or f == "__version__.py" or (a.files and not any(x in rel for x in a.files.split(","))):
                continue
            src = open(os.path.join(root, f)).read()
            for ln, what, text in mutations(src):
                if a.what not in what:
                    continue
                if only is None or (rel, ln, what) in only:
                    jobs.append((rel, ln, what, text, a.scale, a.seed, a.checks.split(",") if a.checks else ORDER))
    random.Random(a.seed).shuffle(jobs)
    if a.sample:
        jobs = jobs[: a.sample]
    print(len(jobs), "mutants")
    tally = {}
    with cf.ThreadPoolExecutor(a.j) as ex, open(a.out, "w") as out:
        for fut in cf.as_completed([ex.submit(judge, j) for j in jobs]):
            res = fut.result()
            tally[res[3]] = tally.get(res[3], 0) + 1
            out.write(json.dumps(res) + "\n")
            out.flush()
            if res[3] is None or res[3][-1] in "?!":
                print("UNNOTICED" if res[3] is None else res[3], *res[:3], res[4], flush=True)
    print(sorted(tally.items(), key=str))


if __name__ == "__main__":
    main()
