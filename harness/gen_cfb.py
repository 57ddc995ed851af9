"""Random histories for the compound file. The shadow kept here only steers generation."""
from drv_cfb import coll

BOUNDS = [0, 1, 2, 63, 64, 65, 127, 128, 511, 512, 513, 1023, 1024, 2048, 4032, 4033, 4095, 4096, 4097,
          4160, 4608, 8191, 8192, 8193, 12288, 16384, 20000]


class Gen(object):
    def __init__(self, r, names, depth=3, maxlen=20000, big=False):
        self.r, self.names, self.depth, self.maxlen = r, names, depth, maxlen
        self.t = {(): "d"}
        self.h = None
        self.b = 1

    def note(self, e):
        """learn the outcome of an executed event"""
        if e["r"] != "ok":
            return
        o = e["o"]
        if o == "mkdir":
            self.t[tuple(e["p"])] = "d"
        elif o == "makedirs":
            for i in range(1, len(e["p"]) + 1):
                self.t.setdefault(tuple(e["p"][:i]), "d")
        elif o in ("open", "touch"):
            self.t.setdefault(tuple(e["p"]), "s")
            if o == "open":
                self.h = tuple(e["p"])
        elif o in ("remove", "rmtree"):
            p = tuple(e["p"])
            self.t = dict((k, v) for k, v in self.t.items() if k[:len(p)] != p)
            if self.h is not None and self.h[:len(p)] == p:
                self.h = None
        elif o == "move":
            a, b = tuple(e["p"]), tuple(e["q"])
            self.t = dict(((b + k[len(a):]) if k[:len(a)] == a else k, v) for k, v in self.t.items())
            if self.h is not None and self.h[:len(a)] == a:
                self.h = b + self.h[len(a):]
        elif o == "reopen":
            self.h = None

    def existing(self, kind=None, nonroot=True):
        l = [p for p, k in self.t.items() if (kind is None or k == kind) and (p or not nonroot)]
        return list(self.r.choice(sorted(l))) if l else None

    def fresh(self, under=None):
        """a path that may or may not exist, below an existing storage most of the time"""
        r = self.r
        d = [p for p, k in self.t.items() if k == "d" and len(p) < self.depth]
        base = r.choice(sorted(d)) if r.random() < 0.93 else tuple(self.anything()[:self.depth - 1])
        return list(base) + [r.choice(self.names)]

    def anything(self):
        r = self.r
        if r.random() < 0.6 and len(self.t) > 1:
            return self.existing()
        return [r.choice(self.names) for _ in range(r.randint(1, self.depth))]

    def data(self, maxn=None):
        r = self.r
        n = r.choice(BOUNDS) if r.random() < 0.7 else r.randint(0, 3000)
        if r.random() < 0.3:
            n = max(0, n + r.randint(-2, 2))
        n = min(n, maxn or self.maxlen)
        out = []
        while n > 0:
            k = n if r.random() < 0.6 else r.randint(1, n)
            self.b = self.b % 250 + 1
            out.append([self.b, k])
            n -= k
        return out

    def size(self):
        r = self.r
        n = r.choice(BOUNDS) if r.random() < 0.7 else r.randint(0, self.maxlen)
        return min(self.maxlen, max(0, n + (r.randint(-2, 2) if r.random() < 0.3 else 0)))

    def op(self, w):
        r = self.r
        ks = sorted(w)
        k = r.choices(ks, [w[x] for x in ks])[0]
        if k in ("write", "read", "seek", "truncate") and self.h is None:
            k = "open"
        if k == "mkdir":
            p = self.fresh()
            return {"o": "mkdir", "p": p, "u": coll(p[-1]), "c": r.choice([0, 0, 2, 3, 77])}
        if k == "makedirs":
            p = self.anything()
            if r.random() < 0.7:
                p = self.fresh() + [r.choice(self.names)]
            return {"o": "makedirs", "p": p, "us": [coll(x) for x in p]}
        if k == "open":
            p = self.fresh() if r.random() < 0.55 else (self.existing("s") or self.fresh())
            return {"o": "open", "p": p, "u": coll(p[-1]), "m": r.choice(["w", "rw", "rw", "w", "r"])}
        if k == "touch":
            p = self.fresh()
            if self.t.get(tuple(p[:-1])) != "d":
                return {"o": "exists", "p": p}
            return {"o": "touch", "p": p, "u": coll(p[-1])}
        if k == "write":
            return {"o": "write", "d": self.data()}
        if k == "read":
            return {"o": "read", "n": r.choice([-1, -1, 0, 1, self.size(), self.size()])}
        if k == "seek":
            wh = r.choice([0, 0, 0, 1, 2])
            n = self.size() if wh == 0 else (r.choice([-1, 0, 1, -64, 64, r.randint(-5000, 3000)]))
            return {"o": "seek", "n": n, "w": wh}
        if k == "truncate":
            return {"o": "truncate", "n": r.choice([-1, 0, self.size(), self.size(), self.size()])}
        if k == "remove":
            return {"o": "remove", "p": self.anything()}
        if k == "rmtree":
            return {"o": "rmtree", "p": self.existing("d") or self.anything()}
        if k == "move":
            a = self.anything() if r.random() < 0.2 else (self.existing() or self.anything())
            q = self.fresh()
            return {"o": "move", "p": a, "q": q, "u": coll(q[-1])}
        if k == "exists":
            return {"o": "exists", "p": self.anything()}
        if k == "setmeta":
            p = self.existing() or self.anything()
            return {"o": "setmeta", "p": p, "m": [r.randint(0, 2 ** 31 - 1), r.randint(0, 2 ** 31 - 1), r.randint(0, 2 ** 31 - 1)],
                    "c": r.choice([0, 2, 5, 1000])}
        return {"o": "reopen"}


BALANCED = dict(mkdir=10, makedirs=3, open=12, touch=2, write=14, read=6, seek=6, truncate=5, remove=6, rmtree=2,
                move=7, exists=3, setmeta=3, reopen=2)
STREAM = dict(open=10, write=40, read=18, seek=18, truncate=16, reopen=3, remove=1)
NAMES = ["a", "A", "b", "bb", "Bb", "abc", "name-1", "x" * 31, "y" * 32, "z" * 33, "Properties", "\u00e9t\u00e9", "a_c", "aac", "a^c", "AbC"]
PLAIN = ["a", "b", "c", "dd", "d_", "fff", "name-1", "name-2", "Properties", "x" * 31]


def history(run, g, weights, nops, full_every):
    for i in range(nops):
        e = run.step(g.op(weights), full=(i % full_every == full_every - 1))
        if e["r"] == "hang":
            return
        g.note(e)
    run.step({"o": "reopen"}, full=True)
