"""Random PDDL (surface trees), seeded: valid by construction unless said otherwise."""
import random

from .lang import RESERVED, extend

SYL = ["a", "b", "c", "d", "p", "q", "r", "t", "x", "y", "at", "on", "in", "obj", "loc", "truck", "fuel", "Go", "T1", "Z"]
TRICKY = [
    "and1", "or-x", "not-p", "object-x", "either_", "define2", "problem1", "domain-a", "forall-x", "exists1", "whenever",
    "imply_", "assigned", "increase-by", "number", "numbers", "total-cost2", "strips", "typing", "action", "types",
    "parameters", "init", "goal", "metric", "effect", "precondition", "a-", "a_", "x--y", "A", "AND", "Object", "OR", "Define",
    "objects", "constants", "predicates", "functions", "requirements", "derived", "minimizer", "none", "None", "self", "nil",
    "n0t", "e1", "E5", "inf", "nan", "x" * 120, "undefined", "scale", "up", "equal", "true", "False", "a-b-c-d", "k9", "oneof1",
]


def is_name_ok(n):
    return n not in RESERVED


class Gen:
    def __init__(self, rng, size=None, **knobs):
        self.rng = rng
        self.size = size if size is not None else rng.choice([0, 1, 1, 2, 2, 3])
        self.knobs = knobs
        self.used = set()

    def k(self, *choices):
        """A small size; now and then, a large one."""
        if self.rng.random() < self.knobs.get("wide", 0.03):
            if self.rng.random() < 0.06:
                return self.rng.randrange(20, 50)
            return self.rng.randrange(5, 13)
        return self.rng.choice(choices)

    def many(self, n, lo=15, hi=60):
        """The number of things in a section: in a bulky document, mostly large."""
        if self.knobs.get("bulk") and self.rng.random() < 0.6:
            return self.rng.randrange(lo, hi)
        return n

    def upto(self, i, n):
        """The end of a group of a typed list that starts at i."""
        return self.rng.randrange(i + 1, min(n, i + 4) + 1 if self.knobs.get("bulk") else n + 1)

    # ------------------------------------------------------------ names
    def name(self):
        if "pool" in self.knobs and self.rng.random() < 0.9:
            return self.rng.choice(self.knobs["pool"])
        r = self.rng
        x = r.random()
        if x < 0.5:
            n = r.choice(SYL)
        elif x < 0.65:
            n = r.choice(TRICKY)
        elif x < 0.9:
            n = r.choice(SYL) + r.choice(["", "-", "_", ""]) + r.choice(SYL + ["0", "1", "22", "007"])
        else:
            alpha = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
            n = r.choice(alpha) + "".join(r.choice(alpha + "0123456789-_") for _ in range(r.choice([0, 1, 3, 8])))
        return n if is_name_ok(n) else self.name()

    def names(self, k, avoid=()):
        out, seen = [], set(avoid)
        tries = 0
        while len(out) < k:
            tries += 1
            n = self.name() if tries < 200 else self.name() + str(tries)
            if n not in seen:
                seen.add(n)
                out.append(n)
        return out

    def chance(self, p):
        return self.rng.random() < p

    def number(self):
        r = self.rng
        return r.choice([
            lambda: str(r.randrange(10)), lambda: str(r.randrange(1000)), lambda: "0", lambda: "00", lambda: "007",
            lambda: f"{r.randrange(100)}.{r.randrange(100)}", lambda: "1.0", lambda: "0.00001", lambda: "0.1",
            lambda: "123456789012345678901234567890", lambda: "100000000000000000000.0", lambda: "3.140",
            lambda: "0.30000000000000004", lambda: str(r.randrange(10 ** 6)), lambda: "12345678.9",
            lambda: "0.0000000000000000001", lambda: "2.5", lambda: "9007199254740993",
        ])()

    # ------------------------------------------------------------ domain
    def domain(self):
        r = self.rng
        d = {}
        self.adl = self.chance(0.25)
        self.typing = self.knobs.get("typing", self.chance(0.65))
        self.fluents = self.knobs.get("fluents", self.chance(0.45))
        self.costs = self.chance(0.2)
        self.equality = self.chance(0.5)
        self.disj = self.chance(0.6)
        self.univ = self.chance(0.6)
        self.exis = self.chance(0.6)
        self.nondet = self.chance(0.3)
        self.used = set()  # the features used, for the requirements
        d["name"] = self.name()

        # types
        self.type_parent = {}
        d["types"] = None
        if self.typing and self.chance(0.92):
            d["types"] = self.gen_types()
        elif not self.typing and self.chance(0.25):
            ts = self.names(r.randrange(0, 4))
            d["types"] = [(ts, None)] if ts else []
        self.all_types = []
        if self.typing:
            for ns, p in d["types"] or []:
                for n in ns:
                    self.all_types.append(n)
                if p and p != "object":
                    self.all_types.append(p)
            self.all_types = sorted(set(self.all_types))

        # constants
        d["constants"] = None
        self.consts = []
        if self.chance(0.5):
            d["constants"] = self.name_list(self.many(self.k(*range(0, 2 + 2 * self.size))))
            self.consts = [n for ns, _ in d["constants"] for n in ns]

        # predicates
        self.preds = []
        for n in self.names(self.many(1 + r.randrange(0, 2 + self.size))):
            self.preds.append((n, self.typed_list(self.k(0, 1, 1, 2, 2, 3, 4))))
        if self.chance(0.05):
            self.preds = []

        # functions
        self.funcs = []
        d["funcs"] = None
        if self.fluents or self.costs:
            groups = []
            fn = []
            if self.fluents:
                fn = [(n, self.typed_list(self.k(0, 0, 1, 1, 2, 3))) for n in self.names(self.many(1 + r.randrange(0, 3)))]
                self.used.add("numeric-fluents")
            if self.costs:
                fn.insert(r.randrange(len(fn) + 1), ("total-cost", []))
                self.used.add("action-costs")
            self.funcs = list(fn)
            # typed groups, the last one possibly untyped
            i = 0
            while i < len(fn):
                j = r.randrange(i + 1, len(fn) + 1)
                last = j == len(fn)
                groups.append((fn[i:j], None if last and self.chance(0.5) else "number"))
                i = j
            d["funcs"] = groups
        self.val_funcs = [(n, tl) for n, tl in self.funcs]

        # structures
        structs = []
        for n in self.names(self.many(r.choice([0, 1, 1, 2]) + (self.size > 1), 8, 24)):
            structs.append(self.action(n))
        if self.preds and self.chance(0.3):
            for _ in range(self.many(r.choice([1, 1, 2]), 4, 14)):
                structs.append(self.derived())
        r.shuffle(structs)
        d["structs"] = structs
        d["preds"] = list(self.preds) or None
        d["reqs"] = self.requirements(self.used)
        self.dom = d
        return d

    def requirements(self, used):
        """A section that grants the features in use (several ways to grant), plus noise."""
        r = self.rng
        if self.typing:
            used = used | {"typing"}
        req = set()
        for u in sorted(used):
            opts = [{u}]
            if u in ("typing", "disjunctive-preconditions", "equality"):
                opts.append({"adl"})
            if u in ("universal-preconditions", "existential-preconditions"):
                opts += [{"adl"}, {"quantified-preconditions"}]
            if u == "numeric-fluents":
                opts.append({"fluents"})
            if u == "disjunctive-preconditions":
                opts.append({"adl"})
            # 'adl' grants most features: use it for all or for none, mostly
            pick = {"adl"} if self.adl and {"adl"} in opts else r.choice(opts) if self.chance(0.3) else {u}
            req |= pick
        req |= set(r.sample(["strips", "negative-preconditions", "conditional-effects", "derived-predicates"], r.randrange(0, 3)))
        if self.chance(0.1):
            req |= {r.choice(["adl", "fluents", "equality", "action-costs", "non-deterministic"])}
        req = sorted(req)
        r.shuffle(req)
        if req and self.chance(0.05):
            req.append(req[0])
        if not req:
            return None
        return req

    def gen_types(self):
        """A forest: several roots, explicit or implicit parents, groups in any order."""
        r = self.rng
        k = self.many(self.k(*range(0, 3 + 2 * self.size)))
        ts = self.names(k)
        parent = {}
        for i, t in enumerate(ts):
            x = r.random()
            if i == 0 or x < 0.3:
                parent[t] = None if self.chance(0.5) else "object"
            else:
                parent[t] = ts[r.randrange(i)] if self.chance(0.6) else ts[i - 1]
        declared = list(ts)
        # some parents stay implicit: they only occur as supertypes
        if self.chance(0.25):
            for t in list(declared):
                if parent[t] in (None, "object") and any(parent[c] == t for c in ts) and self.chance(0.6):
                    declared.remove(t)
        r.shuffle(declared)
        typed = [t for t in declared if parent[t] is not None]
        untyped = [t for t in declared if parent[t] is None]
        groups = []
        by = {}
        for t in typed:
            if self.chance(0.6) and parent[t] in by:
                by[parent[t]].append(t)
            else:
                g = [t]
                by[parent[t]] = g
                groups.append((g, parent[t]))
        r.shuffle(groups)
        if untyped:
            groups.append((untyped, None))
        self.type_parent = {t: parent[t] for t in ts}
        return groups

    def a_type(self):
        r = self.rng
        if not self.all_types or self.chance(0.07):
            return "object"
        return r.choice(self.all_types)

    def name_list(self, k, avoid=()):
        ns = self.names(k, avoid)
        if not self.typing:
            return [(ns, None)] if ns else []
        groups, i = [], 0
        while i < len(ns):
            j = self.upto(i, len(ns))
            last = j == len(ns)
            groups.append((ns[i:j], None if last and self.chance(0.3) else self.a_type()))
            i = j
        return groups

    def typed_list(self, k, names=None):
        r = self.rng
        ns = names or self.names(k)
        if not self.typing:
            return [(ns, None)] if ns else []
        groups, i = [], 0
        while i < len(ns):
            j = self.upto(i, len(ns))
            last = j == len(ns)
            if last and self.chance(0.25):
                ty = None
            elif self.chance(0.2):
                ty = ("either", list(dict.fromkeys(self.a_type() for _ in range(self.k(1, 2, 2, 3)))))
            else:
                ty = ("t", self.a_type())
            groups.append((ns[i:j], ty))
            i = j
        return groups

    # ------------------------------------------------------------ actions
    def action(self, name):
        r = self.rng
        tl = self.typed_list(self.k(0, 1, 2, 2, 3, 4))
        scope = [n for ns, _ in tl for n in ns]
        depth = r.choice([0, 1, 2, 3, 4][: 3 + self.size])
        x = r.random()
        pre = None if x < 0.1 else ("empty",) if x < 0.18 else self.gd(scope, depth)
        x = r.random()
        eff = None if x < 0.08 else ("empty",) if x < 0.14 else self.eff(scope, r.choice([0, 1, 2, 3]))
        return ("action", name, tl, pre, eff)

    def derived(self):
        r = self.rng
        n, decl = r.choice(self.preds)
        flat = [(v, ty) for vs, ty in decl for v in vs]
        mine = self.names(len(flat))
        # types: none, or subtypes of the declared ones; a typed prefix only (untyped ones at the end)
        tl = []
        cut = 0
        if self.typing and self.chance(0.4):
            cut = r.randrange(0, len(flat) + 1)
        for i in range(cut):
            ty = flat[i][1]
            tl.append(([mine[i]], self.subtype(ty)))
        if mine[cut:]:
            tl.append((mine[cut:], None))
        return ("derived", n, tl, self.gd(mine, r.choice([0, 1, 2, 3])))

    def subtype(self, ty):
        r = self.rng
        if ty is None or (ty[0] == "t" and ty[1] == "object") or (ty[0] == "either" and "object" in ty[1]):
            return ("t", self.a_type()) if self.chance(0.7) else ("either", [self.a_type()])
        tags = [ty[1]] if ty[0] == "t" else ty[1]
        down = []
        for t in self.all_types:
            x, hops = t, 0
            while x is not None and hops < 50:
                if x in tags:
                    down.append(t)
                    break
                x, hops = self.type_parent.get(x), hops + 1
        if not down:
            return ty
        if self.chance(0.25):
            return ("either", list(dict.fromkeys(r.choice(down) for _ in range(2))))
        return ("t", r.choice(down))

    def term(self, scope, ctx="domain"):
        if scope and (not self.consts or self.chance(0.75)):
            return ("v", self.rng.choice(scope))
        if self.consts:
            return ("c", self.rng.choice(self.consts))
        return None

    def terms(self, k, scope):
        out = []
        for _ in range(k):
            t = self.term(scope)
            if t is None:
                return None
            out.append(t)
        return out

    def atom(self, scope):
        r = self.rng
        for _ in range(5 if self.preds else 0):
            n, tl = r.choice(self.preds)
            ts = self.terms(sum(len(ns) for ns, _ in tl), scope)
            if ts is not None:
                return ("atom", n, ts)
        nullary = [n for n, tl in self.preds if not tl]
        if nullary:
            return ("atom", r.choice(nullary), [])
        n = self.names(1, [n for n, _ in self.preds])[0]
        self.preds.append((n, []))
        return ("atom", n, [])

    def atom_gd(self, scope):
        if self.equality and self.chance(0.25):
            ts = self.terms(2, scope)
            if ts is not None:
                self.used.add("equality")
                return ("=", *ts)
        return self.atom(scope)

    def fun(self, scope, bare_ok=False):
        r = self.rng
        for _ in range(5):
            n, tl = r.choice(self.val_funcs)
            ts = self.terms(sum(len(ns) for ns, _ in tl), scope)
            if ts is not None:
                return ("f", n, ts, bool(bare_ok and not ts and self.chance(0.2)))
        return None

    def exp(self, scope, depth, first_of_eq=False):
        r = self.rng
        if depth <= 0 or self.chance(0.35):
            if self.chance(0.55):
                f = self.fun(scope, bare_ok=not first_of_eq)
                if f is not None:
                    return f
            return ("n", self.number())
        op = r.choice(["+", "*", "-", "/", "+", "-"])
        k = {"+": r.choice([2, 2, 3, 4]), "*": r.choice([2, 2, 3]), "-": r.choice([1, 2, 2]), "/": 2}[op]
        es = [self.exp(scope, depth - 1) for _ in range(k)]
        if k >= 2 and self.chance(0.2):
            es[1] = es[0]
        return ("op", op, es)

    def gd(self, scope, depth):
        r = self.rng
        if depth <= 0 or self.chance(0.15):
            if self.val_funcs and self.chance(0.3):
                op = r.choice([">", "<", ">=", "<=", "="])
                a = self.exp(scope, r.choice([0, 1, 2, 3]), first_of_eq=op == "=")
                b = a if self.chance(0.1) and not (a[0] == "f" and a[3]) else self.exp(scope, r.choice([0, 1, 2, 3]))
                return ("cmp", op, a, b)
            return self.atom_gd(scope)
        x = r.random()
        if x < 0.30:
            ops = [self.gd(scope, depth - 1) for _ in range(self.k(0, 1, 2, 2, 3, 4) if depth < 3 else r.choice([0, 1, 2, 2, 3]))]
            if len(ops) >= 2 and self.chance(0.2):
                ops[-1] = ops[0]
            return ("and", ops)
        if x < 0.45 and self.disj:
            self.used.add("disjunctive-preconditions")
            ops = [self.gd(scope, depth - 1) for _ in range(self.k(0, 1, 2, 2, 3) if depth < 3 else r.choice([0, 1, 2, 2, 3]))]
            if len(ops) >= 2 and self.chance(0.2):
                ops[-1] = ops[0]
            return ("or", ops)
        if x < 0.6:
            return ("not", self.gd(scope, depth - 1))
        if x < 0.7 and self.disj:
            self.used.add("disjunctive-preconditions")
            return ("imply", self.gd(scope, depth - 1), self.gd(scope, depth - 1))
        if x < 0.85 and self.univ:
            self.used.add("universal-preconditions")
            return ("forall", *self.quant(scope, lambda s: self.gd(s, depth - 1)))
        if x < 0.95 and self.exis:
            self.used.add("existential-preconditions")
            return ("exists", *self.quant(scope, lambda s: self.gd(s, depth - 1)))
        return self.gd(scope, depth - 1)

    def quant(self, scope, body):
        """A binder; it often shadows a name in scope."""
        r = self.rng
        k = self.k(0, 1, 1, 2, 3)
        names = self.names(k)
        if scope and k and self.chance(0.35):
            sh = r.choice(scope)
            if sh not in names:
                names[0] = sh
        tl = self.typed_list(len(names), names) if names else []
        return tl, body(list(dict.fromkeys(names + scope)))

    # ------------------------------------------------------------ effects
    def p_eff(self, scope):
        r = self.rng
        x = r.random()
        if self.val_funcs and x < 0.25:
            f = self.fun(scope, bare_ok=True)
            if f is not None:
                op = r.choice(["assign", "scale-up", "scale-down", "increase", "decrease"])
                return ("num", op, f, self.exp(scope, r.choice([0, 1, 2])))
        if x < 0.5:
            return ("not", self.atom_gd(scope) if self.chance(0.1) else self.atom(scope))
        return self.atom_gd(scope) if self.chance(0.1) else self.atom(scope)

    def c_eff(self, scope, depth):
        r = self.rng
        x = r.random()
        if depth <= 0 or x < 0.35:
            return self.p_eff(scope)
        if x < 0.6:
            return ("forall", *self.quant(scope, lambda s: self.eff(s, depth - 1)))
        if x < 0.85:
            if self.chance(0.5):
                e = ("and", [self.p_eff(scope) for _ in range(self.k(0, 1, 2, 3))])
            else:
                e = self.p_eff(scope)
            return ("when", self.gd(scope, r.choice([0, 1, 2])), e)
        if self.nondet:
            self.used.add("non-deterministic")
            ops = [self.eff(scope, depth - 1) for _ in range(r.choice([1, 2, 2, 3]))]
            if len(ops) > 1 and self.chance(0.15):
                ops[1] = ops[0]
            return ("oneof", ops)
        return self.p_eff(scope)

    def eff(self, scope, depth):
        if self.chance(0.6):
            return ("and", [self.c_eff(scope, depth) for _ in range(self.rng.choice([0, 1, 2, 2, 3, 4]))])
        return self.c_eff(scope, depth)

    # ------------------------------------------------------------ problem (of the last domain, or stand-alone)
    def problem(self, domain=None):
        r = self.rng
        if domain is None:
            domain = self.domain()
        p = {"name": self.name(), "domain": domain["name"], "reqs": None, "objects": None, "metric": None}
        if domain["reqs"] and self.chance(0.5):
            sub = sorted(set(domain["reqs"]))
            p["reqs"] = r.sample(sub, r.randrange(1, len(sub) + 1))
        dconsts = list(self.consts)
        if self.chance(0.9):
            p["objects"] = self.name_list(self.many(self.k(*range(0, 3 + 3 * self.size)), 20, 90))
        objs = [n for ns, _ in p["objects"] or [] for n in ns]
        self.objs = objs
        saved = self.consts
        self.consts = sorted(set(objs + dconsts))
        init = []
        for _ in range(self.many(r.randrange(0, 3 + 4 * self.size), 40, 200)):
            x = r.random()
            if self.val_funcs and x < 0.3:
                f = self.fun([], bare_ok=True)
                if f is not None:
                    init.append(("val", f, self.number()))
                    continue
            a = self.atom([])
            init.append(("not", a) if x > 0.85 else a)
        if init and self.chance(0.1):
            init.append(init[0])
        p["init"] = init
        used = self.used
        # a goal may use anything the domain allows; without a domain in sight, anything
        for feat in ("equality", "disj", "univ", "exis"):
            if getattr(self, feat) or self.knobs.get("any_goal", True):
                setattr(self, feat, True)
        p["goal"] = self.gd([], r.choice([0, 1, 2, 3, 3]))
        if self.val_funcs and self.chance(0.5):
            p["metric"] = (r.choice(["minimize", "maximize"]), self.exp([], r.choice([0, 1, 2, 3])))
        elif self.chance(0.05):
            p["metric"] = ("minimize", ("n", self.number()))
        self.used = used
        self.consts = saved
        domain["preds"] = list(self.preds) or None
        return p

    # ------------------------------------------------------------ plan
    def plan(self, domain=None):
        r = self.rng
        steps = []
        if domain is not None:
            acts = [s for s in domain["structs"] if s[0] == "action"]
            pool = sorted(set(getattr(self, "objs", []) + self.consts)) or ["o1"]
            for _ in range(r.randrange(0, 6)):
                if not acts:
                    break
                a = r.choice(acts)
                steps.append((a[1], [r.choice(pool) for _ in range(sum(len(ns) for ns, _ in a[2]))]))
            return steps
        for _ in range(r.choice([0, 1, 2, 5, 20])):
            steps.append((self.name(), self.names(r.choice([0, 0, 1, 2, 3, 5]))))
        return steps


def new(seed, *key, **kw):
    return Gen(random.Random("/".join(map(str, (seed, *key)))), **kw)
