"""Tagged values: runs histories on the code for spec/TraceTags.tla.

The shadow state (self.h, self.d) only picks operands; what holds is decided by the specification."""
from common import *
import aaf2
from aaf2.auid import AUID
from aaf2.mobid import MobID
from aaf2.misc import TaggedValueHelper
from aaf2.rational import AAFRational
from drv_obj import mobid_of, tok_of

FOREIGN = {"fixed_arrays": {"VfThree": ("0e0b0000-0000-0000-0000-0000000000b7", "01010700-0000-0000-060e-2b3401040101", 3)},
           "enums": {"VfLight": ("0e0b0000-0000-0000-0000-0000000000b8", "01010100-0000-0000-060e-2b3401040101", {0: "Red", 1: "Amber", 2: "Green"})},
           "records": {"VfPair": ("0e0b0000-0000-0000-0000-0000000000b9", (("VfA", "01010600-0000-0000-060e-2b3401040101"), ("VfB", "01010400-0000-0000-060e-2b3401040101")))}}


def tok(v):
    """a value as the specification compares it"""
    if isinstance(v, dict):
        return "{" + ",".join("%s=%s" % (k, tok(v[k])) for k in v) + "}"
    if isinstance(v, (list, tuple)):
        return "[" + ",".join(tok(x) for x in v) + "]"
    if isinstance(v, AAFRational):
        return "%d/%d" % (v.numerator, v.denominator)
    if isinstance(v, str):
        return "s:" + v.encode("unicode_escape").decode()
    return str(v)


class Run(object):
    def __init__(self, r):
        self.r = r
        self.dir = tempfile.mkdtemp(prefix="vf_tag_")
        self.f = {}
        for fn in "AB":
            self.f[fn] = aaf2.open(self.path(fn), "w", sector_size=r.choice([512, 4096]))
        # types one of the files has, the other only with a value of them
        self.types = {"A": list(FOREIGN), "B": []}
        for cat in FOREIGN:
            self.f["A"].metadict.register_typedef_model({cat: FOREIGN[cat]})
        self.ext = {"A": {n for c in FOREIGN.values() for n in c}, "B": set()}
        self.ev = []
        self.h, self.d = {}, {}             # names of tags
        self.o = {}                         # key of an object -> object
        self.dobj, self.dfile = {}, {}
        self.helpers = {}
        self.n = 0
        self.dead = False

    def path(self, fn):
        return os.path.join(self.dir, fn + ".aaf")

    def close(self):
        for f in self.f.values():
            try:
                f.manager.modified = {}
            except Exception:
                pass
        shutil.rmtree(self.dir, ignore_errors=True)

    def rec(self, ev, fn):
        r, v = outcome(fn)
        ev["r"] = r
        if r == "ok":
            ev["v"] = "" if v is None else v
        elif r == "err":
            ev["exc"] = outcome.last[-500:]
            ev["v"] = ""
        else:
            self.dead = True
        self.ev.append(ev)
        return r == "ok"

    # ------------------------------------------------------------ values
    def value(self):
        """(python value, name of type or None, name of the type stored, token, good)"""
        r = self.r
        k = r.choice(["str"] * 4 + ["int"] * 3 + ["rat", "bad", "bad", "typed", "typed", "typed", "foreign"])
        if k == "str":
            v = r.choice(["", "x", "Scene 4", "\u00e5\u00df", "a/b:c", "\U0001F39E", "n" * 40, "l" * 3000])
            return v, None, "aafString", tok(v), 1
        if k == "int":
            v = r.choice([0, 1, -1, 2 ** 31 - 1, -2 ** 31, r.randint(-5000, 5000)])
            return v, None, "aafInt32", tok(v), 1
        if k == "rat":
            v = AAFRational(r.randint(-100, 100), r.randint(1, 50))
            return v, None, "Rational", tok(v), 1
        if k == "bad":
            v = r.choice([2.5, 2 ** 31, -2 ** 31 - 1, b"x", [1], {"a": 1}, object()])
            return v, None, "", "", 0
        if k == "foreign":
            v, t = r.choice([([1, 2, 3], "VfThree"), ([-7, 0, 2 ** 31 - 1], "VfThree"), ("Amber", "VfLight"), ("Green", "VfLight"),
                             ({"VfA": -3, "VfB": 2 ** 63}, "VfPair"), ({"VfA": 0, "VfB": 0}, "VfPair")])
            return v, t, t, tok(v), 1
        v, t, good = r.choice([(200, "aafUInt8", 1), (256, "aafUInt8", 0), (-1, "aafUInt32", 0), (2 ** 63, "aafUInt64", 1), (-2 ** 63, "aafInt64", 1),
                               (5, "aafInt64", 1), (7, "aafInt16", 1), ("word", "aafString", 1), (AAFRational(24000, 1001), "Rational", 1),
                               (AUID(int=r.getrandbits(128)), "AUID", 1), (True, "Boolean", 1), (False, "Boolean", 1), (1, "NoSuchType", 0),
                               ("x", "aafInt32", 0), (mobid_of("K%d" % r.randint(1, 9)), "MobIDType", 1), ([1, 2, 300], "aafUInt32Array", 1)])
        return v, t, t if good else "", tok(v) if good else "", good

    # ------------------------------------------------------------ holders
    def obj(self, h):
        return self.o[h.rsplit("|", 1)[0]]

    def vec(self, h):
        return self.obj(h)[h.rsplit("|", 1)[1]]

    def helper(self, h, fresh=False):
        """the map of a holder, sometimes one the program got some time ago"""
        x = self.helpers.get(h)
        if x is not None and not fresh and x[0] is self.obj(h) and self.r.random() < .5:
            return x[1]
        prop = h.rsplit("|", 1)[1]
        if prop == "UserComments" and "|M" in h:
            x = self.obj(h).comments
        else:
            x = TaggedValueHelper(self.vec(h))
        if self.r.random() < .4:
            self.helpers[h] = (self.obj(h), x)
        return x

    def holders(self, key, obj):
        ps = {"M": ["UserComments", "MobAttributeList"], "C": ["ComponentAttributeList", "UserComments"], "T": ["TaggedValueAttributeList"]}[key.split("|")[1][0]]
        for p in ps:
            self.o[key] = obj
            self.h["%s|%s" % (key, p)] = []
            self.rec({"o": "holder", "h": "%s|%s" % (key, p)}, lambda: None)

    def newmob(self):
        r = self.r
        fn = r.choice("AAB")
        self.n += 1
        k = "%s|M%d" % (fn, self.n)
        f = self.f[fn]
        m = getattr(f.create, r.choice(["MasterMob", "CompositionMob", "SourceMob"]))(k)
        m.mob_id = mobid_of("K%d" % self.n)
        if type(m).__name__ == "SourceMob":
            m.descriptor = f.create.ImportDescriptor()
        s = m.create_empty_sequence_slot(25, media_kind="picture")
        c = f.create.Filler("picture", 10)
        s.segment.components.append(c)
        f.content.mobs.append(m)
        self.holders(k, m)
        self.holders("%s|C%d" % (fn, self.n), c)

    def refind(self, fn):
        for m in self.f[fn].content.mobs:
            n = int(tok_of(m.mob_id)[1:])
            self.o["%s|M%d" % (fn, n)] = m
            self.o["%s|C%d" % (fn, n)] = list(m.slots)[0].segment.components[0]

    # --------------------------------------------------------- projection
    def see_tag(self, t):
        return {"n": t.name, "t": t.value_typedef.type_name, "v": tok(t.value)}

    def see(self, e):
        e["obs"] = dict((h, [self.see_tag(t) for t in self.vec(h)]) for h in self.h)
        e["det"] = dict((x, self.see_tag(t)) for x, t in self.dobj.items())

    # --------------------------------------------------------- operations
    def step(self):
        r = self.r
        if not self.h or (len(self.o) < 8 and r.random() < .1):
            return self.newmob()
        h = r.choice(sorted(self.h)[:6]) if r.random() < .7 else r.choice(sorted(self.h))
        fn = h[0]
        s = self.h[h]
        names = s * 2 + ["a", "b", "Comment", "comment", "", "\u00e9", "Tape Name"]
        n = r.choice(names)
        k = r.choice(["set"] * 9 + ["idx", "idx", "get", "has", "items"] * 2 + ["make"] * 3 + ["append"] * 4 + ["insert", "pop", "pop", "name", "value", "value", "again"]
                     + ["clear"] * (r.random() < .3) + ["reverse", "look", "look"] + ["copy"] * (len(self.o) < 12) + ["reopen"] * (r.random() < .5))
        e = {"o": k, "h": h}
        if k == "set":
            v, t, st, tk, good = self.value()
            while t is not None:
                v, t, st, tk, good = self.value()
            key = n
            if r.random() < .05:
                key, good = r.choice([5, b"k", 2.5]), 0
            e.update({"n": n, "t": st, "v": "", "good": good})
            e["w"] = tk
            m = self.helper(h)

            def go():
                m[key] = v
            if self.rec_in(e, go, tk) and n not in s:
                s.append(n)
        elif k in ("idx", "get", "has", "items"):
            e["n"] = n
            m = self.helper(h)

            def go():
                if k == "idx":
                    return tok(m[n])
                if k == "has":
                    return n in m
                if k == "items":
                    return [[a, tok(b)] for a, b in m.items()]
                t = m.get(n)
                return [] if t is None else [self.see_tag(t)]
            self.rec(e, go)
        elif k == "make":
            v, t, st, tk, good = self.value()
            if t in self.ext["A"] and t not in self.ext[fn]:
                return
            self.n += 1
            x = "T%d" % self.n
            del e["h"]
            e.update({"x": x, "n": n, "t": st, "good": good})
            how = r.random()

            def go():
                c = self.f[fn].create
                if how < .5:
                    o = c.TaggedValue(n, v, t)
                else:
                    o = c.TaggedValue()
                    o.name = n
                    if t is None and how < .75:
                        o.value = v
                    else:
                        o.encode_value(v, t)
                self.dobj[x], self.dfile[x] = o, fn
            if self.rec_in(e, go, tk):
                self.d[x] = n
        elif k in ("append", "insert"):
            xs = [x for x in sorted(self.d) if self.dfile[x] == fn]
            if not xs:
                return
            x = r.choice(xs)
            e["x"] = x
            at = len(s)
            if k == "insert":
                at = r.randint(0, len(s))
                e["i"] = at + 1
            else:
                m = self.helper(h)

            def go():
                if k == "append":
                    m.append(self.dobj[x])
                else:
                    self.vec(h).insert(at, self.dobj[x])
            if self.rec(e, go):
                s.insert(at, self.d.pop(x))
                del self.dobj[x]
        elif k == "again":
            if not s:
                return
            m = self.helper(h)
            self.rec(e, lambda: m.append(r.choice(list(self.vec(h)))))
        elif k == "pop":
            if not s:
                return
            i = r.randrange(len(s))
            self.n += 1
            x = "T%d" % self.n
            e.update({"i": i + 1, "x": x})

            def go():
                self.dobj[x], self.dfile[x] = self.vec(h).pop(i), fn
            if self.rec(e, go):
                self.d[x] = s.pop(i)
        elif k in ("name", "value"):
            xs = sorted(self.d)
            if xs and r.random() < .3:
                x, i = r.choice(xs), 0
                o, fn = self.dobj[x], self.dfile[x]
            elif s:
                i, x = r.randint(1, len(s)), ""
                o = self.vec(h)[i - 1]
            else:
                return
            e.update({"x": x, "i": i, "n": n})
            if k == "name":
                def go():
                    o.name = n
                if self.rec(e, go):
                    if i:
                        s[i - 1] = n
                    else:
                        self.d[x] = n
                return
            v, t, st, tk, good = self.value()
            if t in self.ext["A"] and t not in self.ext[fn]:
                return
            e.update({"t": st, "good": good})

            def go():
                if t is None and r.random() < .5:
                    o.value = v
                else:
                    o.encode_value(v, t)
            self.rec_in(e, go, tk)
        elif k == "clear":
            def go():
                if r.random() < .5 and h.rsplit("|", 1)[1] in self.obj(h):
                    del self.obj(h)[h.rsplit("|", 1)[1]]
                else:
                    self.vec(h).clear()
            if self.rec(e, go):
                del s[:]
        elif k == "reverse":
            def go():
                v = self.vec(h)
                v.value = list(reversed(list(v)))
            if self.rec(e, go):
                s.reverse()
        elif k == "look":
            e = {"o": "look"}
            self.rec(e, lambda: self.see(e))
        elif k == "copy":
            ms = [x for x in sorted(self.o) if x.split("|")[1][0] == "M"]
            x = r.choice(ms)
            fn2 = r.choice("AB")
            self.n += 1
            n2 = self.n
            c = x.replace("|M", "|C")
            y, d = "%s|M%d" % (fn2, n2), "%s|C%d" % (fn2, n2)
            hs = [[a, a.replace(x + "|", y + "|").replace(c + "|", d + "|")] for a in sorted(self.h) if a.startswith((x + "|", c + "|"))]

            def go():
                m = self.o[x].copy(root=self.f[fn2])
                m.mob_id = mobid_of("K%d" % n2)
                self.f[fn2].content.mobs.append(m)
                self.o[y] = m
                self.o[d] = list(m.slots)[0].segment.components[0]
            if self.rec({"o": "copy", "hs": hs}, go):
                for a, b in hs:
                    self.h[b] = list(self.h[a])
        elif k == "reopen":
            self.reopen()

    def rec_in(self, e, fn, tk):
        """an operation with the value tk in"""
        e["v"] = tk
        r, v = outcome(fn)
        e.pop("w", None)
        e["r"] = r
        if r == "err":
            e["exc"] = outcome.last[-500:]
        if r == "hang":
            self.dead = True
        self.ev.append(e)
        return r == "ok"

    def reopen(self):
        e = {"o": "reopen"}

        def go():
            self.d.clear()
            self.dobj.clear()
            self.helpers.clear()
            self.o.clear()
            for fn in "AB":
                self.f[fn].close()
                self.f[fn] = aaf2.open(self.path(fn), "rw")
                self.refind(fn)
                for n in self.ext["A"]:
                    if self.f[fn].metadict.lookup_typedef(n) is not None:
                        self.ext[fn].add(n)
            self.see(e)
        if not self.rec(e, go):
            self.dead = True


def history(r, steps, label):
    run = Run(r)
    try:
        for _ in range(steps):
            run.step()
            if run.dead:
                break
        else:
            run.reopen()
        return {"init": {}, "ev": run.ev, "label": label}
    finally:
        run.close()


def histories(c, n, steps, salt):
    return c.sharded(lambda i: history(rng(salt, i), steps, "%s %d" % (salt, i)), range(n))
