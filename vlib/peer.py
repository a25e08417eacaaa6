"""Another interpreter, with its own hash seed, that loads and prints what it is sent."""
import os
import pickle
import subprocess
import sys

if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    sys.path = [p for p in sys.path if p != os.path.dirname(os.path.abspath(__file__))]

from vlib import env  # noqa: E402


class Peer:
    def __init__(self, hashseed, flags=(), **more):
        e = dict(os.environ, PYTHONHASHSEED=str(hashseed), VERIF_REPO=env.REPO, PYTHONDONTWRITEBYTECODE="1")
        e.update(more)
        cmd = [sys.executable, *flags, os.path.abspath(__file__)]
        self.p = subprocess.Popen(
            cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=e, cwd=env.VERIF,
        )

    def ask(self, *req):
        b = pickle.dumps(req)
        self.p.stdin.write(len(b).to_bytes(8, "big") + b)
        self.p.stdin.flush()
        n = self.p.stdout.read(8)
        if len(n) < 8:
            raise RuntimeError("the other interpreter died")
        return pickle.loads(self.p.stdout.read(int.from_bytes(n, "big")))

    def close(self):
        self.p.stdin.close()
        self.p.wait(10)


def serve():
    from vlib import h

    parsers = {k: h.PARSER[k]() for k in h.KINDS}
    stdin, stdout = sys.stdin.buffer, os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)  # nothing else goes to the pipe

    def load(blobs):
        """[(kind, text or canonical builder, pickle)] -> [None or what is wrong]."""
        out = []
        for kind, text, blob, want in blobs:
            try:
                obj = pickle.loads(blob)
                if kind == "parts":
                    doc = parsers["domain"](text)
                    fresh = [x for a in sorted(doc.actions, key=lambda a: a.name) for x in (a, a.precondition, a.effect)]
                else:
                    fresh = parsers[kind](text)
                out.append(compare(kind, obj, fresh, want))
            except Exception as e:  # noqa: B902
                out.append(f"{type(e).__name__}: {str(e)[:500]}")
        return out

    def compare(kind, obj, fresh, want):
        if kind == "parts":
            for x, y in zip(obj, fresh):
                if x is None:
                    continue
                if not (x == y and y == x):
                    return f"not equal to the same made here: {x} / {y}"
                if hash(x) != hash(y):
                    return f"its hash is not the one of the same made here: {x}"
                if x not in {y} or y not in {x}:
                    return f"not found in a set with the same made here: {x}"
                if str(x) != str(y):
                    return f"prints otherwise: {x} / {y}"
            return None
        if not (obj == fresh and fresh == obj):
            return "not equal to the same parsed here"
        if h.OBJ[kind](obj) != want:
            return h.canon.diff(want, h.OBJ[kind](obj))[:800]
        if str(obj) != str(fresh):
            return "prints otherwise"
        if kind == "domain":
            for a in ("predicates", "actions", "derived_predicates", "constants"):
                x, y = getattr(obj, a), getattr(fresh, a)
                if any(e not in y for e in x) or any(e not in x for e in y):
                    return f"{a}: an element is not found in the collection made here"
            if any(obj.functions[f] != fresh.functions[f] for f in fresh.functions):
                return "functions"
        if kind == "problem":
            if any(e not in fresh.init for e in obj.init) or any(e not in obj.init for e in fresh.init):
                return "init: an element is not found in the set made here"
            if any(e not in obj.objects for e in fresh.objects):
                return "objects: an element is not found in the set made here"
        return None

    def show(docs):
        """[(kind, text)] -> what this interpreter prints, or the error."""
        out = []
        for kind, text in docs:
            got, x = h.parse(parsers[kind], text)
            out.append(("ok", str(x)) if got == "ok" else ("err", type(x).__name__))
        return out

    def built(specs):
        """[(kind, canonical value, shuffle seed)] -> what this interpreter prints of the object made of them."""
        import random

        out = []
        for kind, c, seed in specs:
            b = h.Builder(random.Random(seed), numbers=0)
            try:
                out.append(("ok", str(getattr(b, kind)(c))))
            except Exception as e:  # noqa: B902
                out.append(("err", type(e).__name__))
        return out

    def dump(docs):
        return [pickle.dumps(parsers[kind](text), proto) for kind, text, proto in docs]

    def ask(qs):
        from vlib import ask as a

        if "a" not in state:
            state["a"] = a.Answers()
        return state["a"].all(qs)

    state = {}
    ops = {"ask": ask, "load": load, "show": show, "built": built, "dump": dump}
    while True:
        n = stdin.read(8)
        if len(n) < 8:
            stdout.close()
            return
        op, arg = pickle.loads(stdin.read(int.from_bytes(n, "big")))
        b = pickle.dumps(ops[op](arg))
        stdout.write(len(b).to_bytes(8, "big") + b)
        stdout.flush()


if __name__ == "__main__":
    serve()
