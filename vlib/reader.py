"""Reference reader: text -> surface tree, or Reject / Unsure. Written from the PDDL grammar, by hand.

It decides acceptance of any text: `Reject` when no PDDL reader may accept it, `Unsure` when the
properties leave the verdict open (undeclared symbols, adjacent tokens without separator, ...).
"""
import re

from .lang import (
    NUM_EFF, REQS, RESERVED, Reject, Scope, Unsure, extend, flat_nl, flat_tl, types_of,
)

TOK = re.compile(
    r"(?P<ws>\s+)|(?P<com>;[^\n]*)|(?P<kw>:[a-zA-Z-]+)|(?P<name>[a-zA-Z][a-zA-Z0-9_-]*)"
    r"|(?P<num>[0-9]+(?:\.[0-9]+)?)|(?P<op>>=|<=|[()?=<>+*/-])"
)
NAME = re.compile(r"[a-zA-Z][a-zA-Z0-9_-]*\Z")


def tokenize(text):
    toks, pos = [], 0
    prev_kind, prev_end = None, -1
    while pos < len(text):
        m = TOK.match(text, pos)
        if m is None:
            raise Reject(f"illegal character {text[pos]!r} at {pos}")
        kind = m.lastgroup
        if kind not in ("ws", "com"):
            if prev_end == pos and (prev_kind, kind) in (
                ("num", "name"), ("num", "num"), ("kw", "num"), ("kw", "kw"), ("name", "kw"), ("num", "kw"),
            ):
                raise Unsure("tokens without a separator")
            toks.append((kind, m.group()))
            prev_kind, prev_end = kind, m.end()
        pos = m.end()
    return toks


class P:
    def __init__(self, text):
        self.t = tokenize(text)
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else None

    def eat(self, what):
        if self.peek() != what:
            raise Reject(f"expected {what!r}, found {self.peek()!r}")
        self.i += 1

    def name(self, ok=()):
        if self.kind() != "name":
            raise Reject(f"expected a name, found {self.peek()!r}")
        n = self.peek()
        if n in RESERVED and n not in ok:
            raise Reject(f"{n!r} is a keyword")
        self.i += 1
        return n

    def var(self):
        self.eat("?")
        return self.name()

    def section(self, kw):
        """At '( kw'?"""
        return self.peek() == "(" and self.peek(1) == kw

    def end(self):
        if self.i != len(self.t):
            raise Reject(f"unexpected {self.peek()!r} at the end")

    # ---------------------------------------------------------------- lists
    def typed_vars(self):
        out = []
        while True:
            names = []
            while self.peek() == "?":
                names.append(self.var())
            if self.peek() == "-":
                if not names:
                    raise Reject("type without names")
                self.eat("-")
                if self.peek() == "(":
                    self.eat("(")
                    self.eat("either")
                    ts = [self.name(("object",))]
                    while self.peek() != ")":
                        ts.append(self.name(("object",)))
                    self.eat(")")
                    out.append((names, ("either", ts)))
                else:
                    out.append((names, ("t", self.name(("object",)))))
            else:
                if names:
                    out.append((names, None))
                break
        seen = {}
        for n, t in flat_tl(out):
            if seen.setdefault(n, t) != t:
                raise Reject(f"?{n} declared with different types")
        return out

    def typed_names(self):
        out, seen = [], set()
        while True:
            names = []
            while self.kind() == "name":
                names.append(self.name())
            for n in names:
                if n in seen:
                    raise Reject(f"duplicate name {n}")
                seen.add(n)
            if self.peek() == "-":
                if not names:
                    raise Reject("type without names")
                self.eat("-")
                out.append((names, self.name(("object",))))
            else:
                if names:
                    out.append((names, None))
                return out

    def reqs(self):
        self.eat("(")
        self.eat(":requirements")
        out = []
        while self.peek() != ")":
            r = self.peek()
            if r is None or r[:1] != ":" or r[1:] not in REQS:
                raise Reject(f"unknown requirement {r!r}")
            out.append(r[1:])
            self.i += 1
        if not out:
            raise Reject("no requirement")
        self.eat(")")
        return out

    # ---------------------------------------------------------------- formulas
    def terms(self):
        out = []
        while self.peek() != ")":
            if self.peek() == "?":
                out.append(("v", self.var()))
            else:
                out.append(("c", self.constant()))
        return out

    def constant(self):
        n = self.name()
        if self.consts is not None and n not in self.consts:
            raise Reject(f"constant {n} not declared")
        return n

    def term(self):
        return ("v", self.var()) if self.peek() == "?" else ("c", self.constant())

    def atomic(self):
        self.eat("(")
        if self.peek() == "=":
            self.eat("=")
            self.need("equality")
            a, b = self.term(), self.term()
            self.eat(")")
            return ("=", a, b)
        n = self.name()
        ts = self.terms()
        self.eat(")")
        return ("atom", n, ts)

    def need(self, *reqs):
        if self.req is not None and not (set(reqs) & self.req):
            raise Reject(f"missing requirement {reqs}")

    def fhead(self):
        if self.kind() == "name":
            return ("f", self.name(("total-cost",)), [], True)
        self.eat("(")
        n = self.name(("total-cost",))
        ts = self.terms()
        self.eat(")")
        return ("f", n, ts, False)

    def exp(self, metric=False):
        if self.kind() == "num":
            n = self.peek()
            if len(n) > 300:
                raise Unsure("huge number")
            self.i += 1
            return ("n", n)
        if self.peek() == "(" and self.peek(1) in ("+", "-", "*", "/"):
            self.eat("(")
            op = self.peek()
            self.i += 1
            es = [self.exp(metric)]
            while self.peek() != ")":
                es.append(self.exp(metric))
            self.eat(")")
            k = len(es)
            ok = {"+": k >= 2, "*": k >= 2, "-": k in (1, 2), "/": k == 2}[op]
            if not ok:
                raise Reject(f"{op} with {k} operands")
            return ("op", op, es)
        return self.basic_fun() if metric else self.fhead()

    def basic_fun(self):
        if self.kind() == "name":
            return ("f", self.name(("total-cost",)), [], True)
        self.eat("(")
        n = self.name(("total-cost",))
        ts = []
        while self.peek() != ")":
            ts.append(("c", self.name()))
        self.eat(")")
        return ("f", n, ts, False)

    def gd(self):
        if self.peek() != "(":
            raise Reject(f"expected a condition, found {self.peek()!r}")
        k = self.peek(1)
        if k in ("and", "or"):
            self.i += 2
            if k == "or":
                self.need("disjunctive-preconditions", "adl")
            ops = []
            while self.peek() != ")":
                ops.append(self.gd())
            self.eat(")")
            return (k, ops)
        if k == "not":
            self.i += 2
            g = self.gd()
            self.eat(")")
            return ("not", g)
        if k == "imply":
            self.i += 2
            self.need("disjunctive-preconditions", "adl")
            a, b = self.gd(), self.gd()
            self.eat(")")
            return ("imply", a, b)
        if k in ("forall", "exists"):
            self.i += 2
            self.need(
                "universal-preconditions" if k == "forall" else "existential-preconditions",
                "quantified-preconditions", "adl",
            )
            self.eat("(")
            tl = self.typed_vars()
            self.eat(")")
            self.types_used(t for _, t in flat_tl(tl))
            g = self.gd()
            self.eat(")")
            return (k, tl, g)
        if k in ("<", ">", "<=", ">=") or (k == "=" and (self.peek(2) == "(" or self.kind(2) == "num")):
            self.i += 2
            a, b = self.exp(), self.exp()
            self.eat(")")
            return ("cmp", k, a, b)
        return self.atomic()

    def p_eff(self):
        if self.peek() == "(" and self.peek(1) == "not":
            self.i += 2
            a = self.atomic()
            self.eat(")")
            return ("not", a)
        if self.peek() == "(" and self.peek(1) in NUM_EFF:
            self.i += 1
            op = self.peek()
            self.i += 1
            f = self.fhead()
            e = self.exp()
            self.eat(")")
            return ("num", op, f, e)
        return self.atomic()

    def eff(self):
        if self.peek() == "(" and self.peek(1) == "and":
            self.i += 2
            ops = []
            while self.peek() != ")":
                ops.append(self.c_eff())
            self.eat(")")
            return ("and", ops)
        return self.c_eff()

    def c_eff(self):
        k = self.peek(1) if self.peek() == "(" else None
        if k == "forall":
            self.i += 2
            self.eat("(")
            tl = self.typed_vars()
            self.eat(")")
            self.types_used(t for _, t in flat_tl(tl))
            e = self.eff()
            self.eat(")")
            return ("forall", tl, e)
        if k == "when":
            self.i += 2
            g = self.gd()
            if self.section("and"):
                self.i += 2
                ops = []
                while self.peek() != ")":
                    ops.append(self.p_eff())
                self.eat(")")
                e = ("and", ops)
            else:
                e = self.p_eff()
            self.eat(")")
            return ("when", g, e)
        if k == "oneof":
            self.i += 2
            self.need("non-deterministic")
            ops = [self.eff()]
            while self.peek() != ")":
                ops.append(self.eff())
            self.eat(")")
            return ("oneof", ops)
        return self.p_eff()

    def types_used(self, tagsets):
        for tags in tagsets:
            self.used_types |= set(tags)

    # ---------------------------------------------------------------- domain
    def domain(self):
        self.used_types = set()
        d = {"reqs": None, "types": None, "constants": None, "preds": None, "funcs": None, "structs": []}
        for x in ("(", "define", "(", "domain"):
            self.eat(x)
        d["name"] = self.name()
        self.eat(")")
        self.req = set()
        self.consts = set()
        if self.section(":requirements"):
            d["reqs"] = self.reqs()
            self.req = extend(d["reqs"])
        if self.section(":types"):
            self.i += 2
            d["types"] = self.typed_names()
            self.eat(")")
            if any(p for _, p in d["types"]) and "typing" not in self.req:
                raise Reject("types without :typing")
        parent = dict(flat_nl(d["types"] or []))
        self.check_hierarchy(parent)
        self.parent = parent
        if self.section(":constants"):
            self.i += 2
            d["constants"] = self.typed_names()
            self.eat(")")
            self.consts = {n for n, _ in flat_nl(d["constants"])}
            self.types_used([p] for _, p in d["constants"] if p)
        if self.section(":predicates"):
            self.i += 2
            d["preds"] = []
            while self.peek() != ")":
                d["preds"].append(self.skeleton())
            if not d["preds"]:
                raise Reject("no predicate")
            self.eat(")")
            if len({n for n, _ in d["preds"]}) != len(d["preds"]):
                raise Unsure("predicate declared twice")
        if self.section(":functions"):
            self.functions(d)
        preds = {n: flat_tl(tl) for n, tl in d["preds"] or []}
        while self.peek() != ")":
            if self.section(":action"):
                self.i += 2
                n = self.name()
                self.eat(":parameters")
                self.eat("(")
                tl = self.typed_vars()
                self.eat(")")
                if len({v for v, _ in flat_tl(tl)}) != len(flat_tl(tl)):
                    self.unsure = "duplicate parameter"
                self.types_used(t for _, t in flat_tl(tl))
                pre = eff = None
                if self.peek() == ":precondition":
                    self.i += 1
                    pre = self.empty_or(self.gd)
                if self.peek() == ":effect":
                    self.i += 1
                    eff = self.empty_or(self.eff)
                self.eat(")")
                d["structs"].append(("action", n, tl, pre, eff))
            elif self.section(":derived"):
                self.i += 2
                n, tl = self.skeleton()
                g = self.gd()
                self.eat(")")
                self.check_derived(n, tl, preds)
                d["structs"].append(("derived", n, tl, g))
            else:
                raise Reject(f"unexpected {self.peek()!r} {self.peek(1)!r}")
        self.eat(")")
        self.end()
        # types in use must be declared, and need :typing
        if self.used_types and "typing" not in self.req:
            raise Reject("typed terms without :typing")
        known = set(parent) | {p for p in parent.values() if p} | {"object"}
        if self.used_types - known:
            raise Reject(f"undeclared types {self.used_types - known}")
        if getattr(self, "unsure", None):
            raise Unsure(self.unsure)
        self.symbols_declared(d)
        return d

    def check_hierarchy(self, parent):
        for t in parent:
            x, seen = t, set()
            while x is not None and x != "object":
                if x in seen:
                    raise Reject("cyclic types")
                seen.add(x)
                x = parent.get(x)

    def is_sub(self, t, tags):
        x = t
        while x is not None:
            if x in tags:
                return True
            if x == "object":
                return False
            x = self.parent.get(x)
        return False

    def check_derived(self, n, tl, preds):
        if n not in preds:
            raise Reject(f"derived predicate {n} not declared")
        flat = flat_tl(tl)
        if len(flat) != len(preds[n]):
            raise Reject("derived predicate with a wrong number of terms")
        if len({v for v, _ in flat}) != len(flat):
            self.unsure = "repeated variable in the head of a derived predicate"
        for (v, mine), (_, decl) in zip(flat, preds[n]):
            if mine and decl and "object" not in decl:
                if not all(self.is_sub(t, decl) for t in mine):
                    raise Reject("types of a derived predicate do not match")

    def empty_or(self, f):
        if self.peek() == "(" and self.peek(1) == ")":
            self.i += 2
            return ("empty",)
        return f()

    def skeleton(self):
        self.eat("(")
        n = self.name()
        tl = self.typed_vars()
        self.eat(")")
        self.types_used(t for _, t in flat_tl(tl))
        return n, tl

    def functions(self, d):
        self.i += 2
        groups = []
        while self.peek() != ")":
            fs = []
            while self.peek() == "(":
                self.eat("(")
                n = self.name(("total-cost",))
                tl = self.typed_vars()
                self.eat(")")
                self.types_used(t for _, t in flat_tl(tl))
                if n == "total-cost" and tl:
                    self.unsure = "total-cost with arguments"
                fs.append((n, tl))
            if not fs:
                raise Reject("type without functions")
            if self.peek() == "-":
                self.eat("-")
                self.eat("number")
                groups.append((fs, "number"))
            else:
                groups.append((fs, None))
                if self.peek() != ")":
                    raise Reject(f"unexpected {self.peek()!r} among the functions")
        if not groups:
            raise Reject("no function")
        self.eat(")")
        d["funcs"] = groups
        allf = [(n, flat_tl(tl)) for fs, _ in groups for n, tl in fs]
        names = [n for n, _ in allf]
        if len(set(allf)) != len(allf):
            raise Reject("function declared twice")
        if len(set(names)) != len(names):
            self.unsure = "function overloaded"
        if "total-cost" in names and "action-costs" not in set(d["reqs"] or ()):
            raise Reject("total-cost without :action-costs")
        if set(names) - {"total-cost"} and "numeric-fluents" not in self.req:
            raise Reject("functions without :numeric-fluents")

    def symbols_declared(self, d):
        """Undeclared or misused symbols, free variables: outside the properties."""
        preds = {n: len(flat_tl(tl)) for n, tl in d["preds"] or []}
        funcs = {n: len(flat_tl(tl)) for fs, _ in d["funcs"] or [] for n, tl in fs}
        acts = [s[1] for s in d["structs"] if s[0] == "action"]
        if len(set(acts)) != len(acts):
            raise Unsure("action defined twice")
        for s in d["structs"]:
            scope = {v for v, _ in flat_tl(s[2])}
            for b in s[3:]:
                if b is not None:
                    check_symbols(b, scope, preds, funcs)

    # ---------------------------------------------------------------- problem
    def problem(self):
        self.used_types = set()
        self.req = None
        self.consts = None
        p = {"reqs": None, "objects": None, "metric": None}
        for x in ("(", "define", "(", "problem"):
            self.eat(x)
        p["name"] = self.name()
        self.eat(")")
        self.eat("(")
        self.eat(":domain")
        p["domain"] = self.name()
        self.eat(")")
        if self.section(":requirements"):
            p["reqs"] = self.reqs()
        if self.section(":objects"):
            self.i += 2
            p["objects"] = self.typed_names()
            self.eat(")")
        self.eat("(")
        self.eat(":init")
        p["init"] = []
        while self.peek() != ")":
            p["init"].append(self.init_el())
        self.eat(")")
        self.eat("(")
        self.eat(":goal")
        p["goal"] = self.gd()
        self.eat(")")
        if self.section(":metric"):
            self.i += 2
            o = self.peek()
            if o not in ("minimize", "maximize"):
                raise Reject("no optimization")
            self.i += 1
            p["metric"] = (o, self.exp(metric=True))
            self.eat(")")
        self.eat(")")
        self.end()
        return p

    def ground_atom(self):
        self.eat("(")
        n = self.name()
        ts = []
        while self.peek() != ")":
            ts.append(("c", self.name()))
        self.eat(")")
        return ("atom", n, ts)

    def init_el(self):
        if self.peek() == "(" and self.peek(1) == "not":
            self.i += 2
            a = self.ground_atom()
            self.eat(")")
            return ("not", a)
        if self.peek() == "(" and self.peek(1) == "=":
            self.i += 2
            f = self.basic_fun()
            if self.kind() != "num":
                raise Reject("value expected")
            n = self.peek()
            if len(n) > 300:
                raise Unsure("huge number")
            self.i += 1
            self.eat(")")
            return ("val", f, n)
        return self.ground_atom()

    # ---------------------------------------------------------------- plan
    def plan(self):
        out = []
        unsure = False
        while self.i < len(self.t):
            self.eat("(")
            if self.peek() in RESERVED:
                unsure = True
                self.i += 1
                n = self.t[self.i - 1][1]
            else:
                n = self.name()
            args = []
            while self.peek() != ")":
                args.append(self.name())
            self.eat(")")
            out.append((n, args))
        if unsure:
            raise Unsure("plan step named as a keyword")
        return out


def check_symbols(b, scope, preds, funcs):
    k = b[0]
    if k == "atom":
        if preds.get(b[1]) != len(b[2]):
            raise Unsure("undeclared predicate or wrong arity")
        terms_ok(b[2], scope)
    elif k == "=":
        terms_ok(b[1:], scope)
    elif k in ("and", "or", "oneof"):
        for x in b[1]:
            check_symbols(x, scope, preds, funcs)
    elif k in ("not", "imply", "when"):
        for x in b[1:]:
            check_symbols(x, scope, preds, funcs)
    elif k in ("forall", "exists"):
        check_symbols(b[2], scope | {v for v, _ in flat_tl(b[1])}, preds, funcs)
    elif k in ("cmp", "num"):
        for x in b[2:]:
            check_exp(x, scope, funcs)


def check_exp(e, scope, funcs):
    if e[0] == "f":
        if funcs.get(e[1]) != len(e[2]):
            raise Unsure("undeclared function or wrong arity")
        terms_ok(e[2], scope)
    elif e[0] == "op":
        for x in e[2]:
            check_exp(x, scope, funcs)


def terms_ok(ts, scope):
    if any(t[0] == "v" and t[1] not in scope for t in ts):
        raise Unsure("free variable")


def read(kind, text):
    """Surface tree, or Reject/Unsure."""
    try:
        return getattr(P(text), kind)()
    except RecursionError:
        raise Unsure("too deep")
