"""Random operations on the object graph, chosen by weight; most are acceptable, some must be refused."""
from drv_obj import *

W = {"new": 10, "append": 9, "extend": 3, "insert": 6, "setitem": 4, "pop": 6, "popkey": 4, "clear": 2, "assign": 4,
     "set1": 8, "none": 2, "del": 2, "getitem": 4, "getkey": 4, "setval": 8, "setkey": 5, "swrite": 5, "copy": 3,
     "wset1": 3, "wextend": 3, "wassign": 2, "wclear": 1, "mobof": 2, "essof": 1, "gc": 5, "save": 3, "reopen": 3, "wrong": 4, "session": 0,
     "complete": 6}
SIZES = [0, 1, 63, 64, 65, 512, 4095, 4096, 4097, 9000]


class Gen(object):
    def __init__(self, run, r, weights=None, classes=None, keys=12, maxnodes=45, vecs=None):
        self.run, self.r = run, r
        self.w = dict(W)
        self.w.update(weights or {})
        self.classes = classes or ["cmob", "mmob", "smob", "slot", "slot", "seq", "seq", "fill", "fill", "fill", "sel", "nest",
                                   "opg", "opg", "clip", "clip", "egrp", "trans", "tag", "tag", "param", "param", "ess", "ess", "desc", "loc",
                                   "opdef", "pardef", "datdef"]
        self.keys = keys
        self.maxnodes = maxnodes

    def token(self):
        n = self.r.choice(SIZES)
        return "%d:%d" % (n, self.r.randint(0, 99) if n > 7 else n)

    @property
    def m(self):
        return self.run.m

    def tops(self, f=None):
        return [x for x in self.m.tops(f) if x in self.run.held]

    def live(self):
        """nodes the program can reach"""
        m = self.m
        r = set(self.tops())
        for f in self.run.names:
            r |= {f + "cs", f + "dict"}
        return sorted(m.reach(r))

    def file(self):
        return self.r.choice(self.run.names)

    def pick_prop(self, kinds):
        live = self.live()
        self.r.shuffle(live)
        for x in live:
            ps = [p for p, (k, _) in strong(self.m.n[x]["cls"]).items() if k in kinds]
            if ps:
                # prefer filled ones
                ps.sort()
                return x, self.r.choice(ps)
        return None

    def top_for(self, p, prop):
        n = self.m.n[p]
        ok = strong(n["cls"])[prop][1]
        c = [x for x in self.tops(n["file"]) if self.m.n[x]["cls"] in ok and p not in self.m.reach([x])]
        return c

    def new(self, cls=None, f=None):
        f = f or self.file()
        cls = cls or self.r.choice(self.classes)
        self.run.next += 1
        o = {"o": "new", "p": "%s%d" % (f, self.run.next), "file": f, "cls": cls, "key": "", "val": 0, "kids": {}, "weak": {}}
        if keyed(cls):
            o["key"] = "K%d" % self.r.randint(3, 3 + self.keys)
        if cls in MOBS:
            o["kids"] = {"Slots": []}
        if cls == "seq":
            o["kids"] = {"Components": []}
        if cls in COMPS or cls == "opdef":
            o["weak"] = {"DataDefinition": ["K1"]}
        if cls == "opg":
            ds = [x for x in self.live() if self.m.n[x]["cls"] == "opdef" and self.m.n[x]["file"] == f]
            if not ds:
                return self.new("opdef", f)
            o["weak"]["Operation"] = [self.m.n[self.r.choice(ds)]["key"]]
            cands = [x for x in ds if self.m.n[x]["key"] == o["weak"]["Operation"][0]]
            # make() must find a definition object the program can reach
            allc = [x for x in self.m.n if self.m.n[x]["cls"] == "opdef" and self.m.n[x]["key"] == o["weak"]["Operation"][0]
                    and self.m.n[x]["file"] == f]
            if allc[0] not in cands:
                return None
        return o

    def op(self):
        for _ in range(40):
            k = self.r.choices(list(self.w), list(self.w.values()))[0]
            o = getattr(self, "g_" + k)()
            if o:
                return o
        return self.new("tag")

    def g_new(self):
        if len(self.live()) > self.maxnodes:
            return None
        return self.new()

    def add(self, o, kinds, many=False):
        # mostly: choose a detached object, then somewhere it fits
        r = self.r
        tops = self.tops()
        r.shuffle(tops)
        for x in tops[:6]:
            c = self.m.n[x]["cls"]
            places = [(p, q) for p in self.live() for q, (k, t) in strong(self.m.n[p]["cls"]).items()
                      if k in kinds and c in t and self.m.n[p]["file"] == self.m.n[x]["file"] and p not in self.m.reach([x])]
            if places:
                att = [pl for pl in places if pl[0] in self.m.attached(self.m.n[pl[0]]["file"])]
                p, q = r.choice(att if att and r.random() < 0.7 else places)
                o.update({"p": p, "prop": q, "x": x})
                return o
        return None

    def g_append(self):
        return self.add({"o": "append"}, ("vec", "set"))

    def g_insert(self):
        o = self.add({"o": "insert"}, ("vec",))
        if o:
            n = len(self.m.n[o["p"]]["kids"].get(o["prop"], []))
            o["i"] = self.r.choice([0, n, self.r.randint(0, n), -1, self.r.randint(-n - 2, n + 2)])
        return o

    def g_setitem(self):
        for _ in range(6):
            o = self.add({"o": "setitem"}, ("vec",))
            if o and self.m.n[o["p"]]["kids"].get(o["prop"]):
                break
        if o:
            n = len(self.m.n[o["p"]]["kids"].get(o["prop"], []))
            o["i"] = self.r.choice([0, n - 1, -1, self.r.randint(-n - 1, n)])
        return o

    def g_extend(self):
        o = self.add({"o": "extend"}, ("vec", "set"))
        if o:
            c = [x for x in self.top_for(o["p"], o["prop"])]
            self.r.shuffle(c)
            o["xs"] = c[:self.r.randint(1, 4)]
            o["w"] = self.r.choice(["list", "list", "tuple", "gen"])
            del o["x"]
        return o

    def g_assign(self):
        o = self.add({"o": "assign"}, ("vec", "set")) if self.r.random() < 0.5 else None
        if o is None:
            pp = self.pick_prop(("vec", "set"))
            if not pp:
                return None
            o = {"o": "assign", "p": pp[0], "prop": pp[1]}
        o.pop("x", None)
        if self.m.n[o["p"]]["cls"] == "dict":
            return None           # would drop the definitions every file has
        own = list(self.m.n[o["p"]]["kids"].get(o["prop"], []))
        c = own + self.top_for(o["p"], o["prop"])[:3]
        self.r.shuffle(c)
        o["xs"] = c[:self.r.randint(0, len(c))]
        o["w"] = self.r.choice(["list", "tuple", "gen"])
        o["hold"] = 1
        return o

    def filled(self, kinds):
        pp = [(x, q) for x in self.live() for q, l in self.m.n[x]["kids"].items() if l and strong(self.m.n[x]["cls"])[q][0] in kinds
              and self.m.n[x]["cls"] != "dict"]
        return self.r.choice(pp) if pp else None

    def g_pop(self):
        pp = self.filled(("vec",))
        if not pp:
            return None
        n = len(self.m.n[pp[0]]["kids"][pp[1]])
        return {"o": "pop", "p": pp[0], "prop": pp[1], "i": self.r.choice([0, n - 1, -1, self.r.randint(0, n - 1), self.r.randint(-n - 1, n)])}

    def g_getitem(self):
        o = self.g_pop()
        if o:
            o["o"] = "getitem"
        return o

    def g_popkey(self):
        pp = self.filled(("set",))
        if not pp:
            return None
        l = self.m.n[pp[0]]["kids"][pp[1]]
        k = self.m.n[self.r.choice(l)]["key"]
        if self.r.random() < 0.15:
            k = "K%d" % self.r.randint(3, 30)
        return {"o": "popkey", "p": pp[0], "prop": pp[1], "key": k}

    def g_getkey(self):
        o = self.g_popkey()
        if o:
            o["o"] = "getkey"
        return o

    def g_clear(self):
        pp = self.filled(("vec", "set"))
        return pp and {"o": "clear", "p": pp[0], "prop": pp[1]}

    def g_set1(self):
        r = self.r
        if r.random() < 0.15:
            pp = self.filled(("one",))
            if pp:
                return {"o": "set1", "p": pp[0], "prop": pp[1], "x": self.m.n[pp[0]]["kids"][pp[1]][0]}
        return self.add({"o": "set1", "hold": int(r.random() < 0.7)}, ("one",))

    def g_none(self):
        pp = [(x, q) for x in self.live() for d in ("kids", "weak") for q in self.m.n[x][d]
              if self.m.n[x]["cls"] not in ("cs", "dict") and (q not in required(self.m.n[x]["cls"]) or self.r.random() < 0.2)
              and q not in ("DataDefinition", "Operation")]
        if not pp:
            return None
        p, q = self.r.choice(sorted(pp))
        return {"o": "none", "p": p, "prop": q, "hold": int(self.r.random() < 0.7)}

    def g_del(self):
        if self.r.random() < 0.3:
            pp = [(x, q) for x in self.live() for q in self.m.n[x]["str"] if q != "Data"]
            if pp:
                p, q = self.r.choice(sorted(pp))
                return {"o": "del", "p": p, "prop": q}
        o = self.g_none()
        if o:
            o["o"] = "del"
        return o

    def g_setval(self):
        c = [x for x in self.live() if self.m.n[x]["cls"] not in ("cs", "dict")]
        return c and {"o": "setval", "p": self.r.choice(c), "nv": self.r.randint(1, 9999)}

    def g_setkey(self):
        c = [x for x in self.live() if self.m.n[x]["cls"] in MOBS + ("ess",)]
        a = set().union(*[self.m.attached(f) for f in self.run.names])
        c += [x for x in self.live() if self.m.n[x]["cls"] == "param" and (x in a or not self.m.owner(x))]
        if self.r.random() < 0.1:
            c = [x for x in self.live() if self.m.n[x]["cls"] in DEFS and int(x[1:]) > 10]
        if not c:
            return None
        d = [x for x in c if x in a]
        if d and self.r.random() < 0.1:
            return {"o": "delkey", "p": self.r.choice(d)}
        return {"o": "setkey", "p": self.r.choice(c), "key": "K%d" % self.r.randint(3, 3 + self.keys)}

    def g_swrite(self):
        c = [(x, s) for x in self.live() for s in streams(self.m.n[x]["cls"])]
        if not c:
            return None
        p, q = self.r.choice(c)
        return {"o": "swrite", "p": p, "prop": q, "d": self.token()}

    def g_copy(self):
        c = [x for x in self.live() if self.m.n[x]["cls"] not in ("cs", "dict") + DEFS]
        if not c or len(self.live()) > self.maxnodes * 1.5:
            return None
        x = self.r.choice(c)
        if self.r.random() < 0.5:
            c = [y for y in c if self.m.n[y]["kids"]]
            if c:
                x = self.r.choice(c)
        if len(self.m.reach([x])) > 14:
            return None
        to = self.file()
        if self.run.readonly(to) and (to == self.m.n[x]["file"] or self.r.random() < 0.7):
            return None
        if to != self.m.n[x]["file"] and self.m.dangling(x):
            return None         # refused, but not before some definitions were copied
        return {"o": "copy", "x": x, "to": to}

    def weakprop(self, kinds):
        c = [(x, q, k, t) for x in self.live() for q, (k, t) in weak(self.m.n[x]["cls"]).items() if k in kinds]
        return self.r.choice(c) if c else None

    def defs(self, f, cls):
        return [x for x in self.live() if self.m.n[x]["cls"] == cls and self.m.n[x]["file"] == f]

    def g_wset1(self):
        p = self.weakprop(("wone",))
        if not p:
            return None
        d = self.defs(self.m.n[p[0]]["file"], p[3])
        return d and {"o": "wset1", "p": p[0], "prop": p[1], "xs": [self.r.choice(d)]}

    def g_wextend(self):
        p = self.weakprop(("wvec", "wset"))
        if not p:
            return None
        d = self.defs(self.m.n[p[0]]["file"], p[3])
        self.r.shuffle(d)
        return d and {"o": "wextend", "p": p[0], "prop": p[1], "xs": d[:self.r.randint(1, 3)]}

    def g_wassign(self):
        o = self.g_wextend()
        if o:
            o["o"] = "wassign"
        return o

    def g_wclear(self):
        p = self.weakprop(("wvec", "wset"))
        return p and {"o": "wclear", "p": p[0], "prop": p[1], "xs": []}

    def g_mobof(self):
        if any(self.run.readonly(f) for f in self.run.names):
            return None
        return {"o": "mobof", "file": self.file(), "key": "K%d" % self.r.randint(3, 3 + self.keys)}

    def g_essof(self):
        if any(self.run.readonly(f) for f in self.run.names):
            return None
        return {"o": "essof", "file": self.file(), "key": "K%d" % self.r.randint(3, 3 + self.keys)}

    def g_gc(self):
        l = sorted(self.run.held)
        return {"o": "gc", "keep": [x for x in l if self.r.random() < 0.3]}

    def g_save(self):
        return {"o": "save", "file": self.file()}

    def g_reopen(self):
        f = self.file()
        if self.run.readonly(f):
            return None
        # mostly make the file complete first
        if not self.m.saveable(f) and self.r.random() < 0.8:
            return self.g_complete(f)
        return {"o": "reopen", "file": f}

    def g_session(self):
        """close and open again in a mode"""
        f = self.file()
        if self.run.readonly(f):
            return {"o": "reopen", "file": f, "mode": self.r.choice(["rw", "r+", "r"])}
        if not self.m.saveable(f) and self.r.random() < 0.9:
            return self.g_complete(f)
        return {"o": "reopen", "file": f, "mode": self.r.choice(["r", "r", "rw"])}

    def g_complete(self, f=None):
        """supply one missing required property of an attached object"""
        f = f or self.file()
        for x in sorted(self.m.attached(f)):
            n = self.m.n[x]
            for p in required(n["cls"]):
                if p in n["kids"] or p in n["str"]:
                    continue
                if p == "Data":
                    return {"o": "swrite", "p": x, "prop": p, "d": self.token()}
                kind, t = strong(n["cls"])[p]
                if kind == "vec":
                    return {"o": "assign", "p": x, "prop": p, "xs": [], "w": "list"}
                c = self.top_for(x, p)
                if c:
                    return {"o": "set1", "p": x, "prop": p, "x": self.r.choice(c)}
                return self.new("opg" if p == "OperationGroup" else self.r.choice(["fill", "clip", "seq"]), f)
        return None

    def g_wrong(self):
        """operations that must be refused"""
        r = self.r
        o = r.choice([self.g_append, self.g_insert, self.g_setitem, self.g_set1, self.g_extend, self.g_assign])()
        if not o:
            return None
        n = self.m.n[o["p"]]
        att = self.m.attached(n["file"])
        how = r.choice(["class", "attached", "foreign"])
        kind, t = strong(n["cls"])[o["prop"]]
        if how == "class":
            c = [x for x in self.tops(n["file"]) if self.m.n[x]["cls"] not in t]
        elif how == "attached":
            own = n["kids"].get(o["prop"], [])
            c = [x for x in att if self.m.n[x]["cls"] in t and x not in own and self.m.n[x]["cls"] not in DEFS]
        else:
            c = [x for g in self.run.names if g != n["file"] for x in self.tops(g) if self.m.n[x]["cls"] in t]
        if not c:
            return None
        x = r.choice(sorted(c))
        if "xs" in o:
            o["xs"] = list(o["xs"])
            o["xs"].insert(r.randint(0, len(o["xs"])), x)
        else:
            o["x"] = x
        return o


def scaffold(g, f):
    """operations that build a deep attached tree, operands chosen as they become known"""
    r = g.r

    def new(cls, key=None):
        o = g.new(cls, f)
        if o and key:
            o["key"] = key
        return o

    def put(o, p, prop):
        k = strong(g.m.n[p]["cls"])[prop][0]
        return {"o": "set1" if k == "one" else "append", "p": p, "prop": prop, "x": o["p"]}
    if not g.m.n[f + "dict"]["kids"].get("OperationDefinitions"):
        d = new("opdef")
        yield d
        yield put(d, f + "dict", "OperationDefinitions")
    m = new(r.choice(["cmob", "mmob"]))
    s, q, o = new("slot"), new("seq"), None
    for x in (m, s, q):
        yield x
    yield put(m, f + "cs", "VfMobs" if g.m.n[m["p"]]["cls"] == "cmob" and r.random() < .2 else "Mobs")
    yield put(q, s["p"], "Segment")
    o = g.new("opg", f)
    if not o or o["cls"] != "opg":
        yield put(s, m["p"], "Slots")
        return
    yield o
    late = r.random() < .5
    for i in range(r.randint(1, 3)):
        c = new("param", "K%d" % (3 + i))
        yield c
        if late:
            yield put(c, o["p"], r.choice(["Parameters", "VfConsts"]))
        else:
            yield put(o, q["p"], "Components") if not g.m.owner(o["p"]) else None
            yield put(c, o["p"], r.choice(["Parameters", "VfConsts"]))
    if not g.m.owner(o["p"]):
        yield put(o, q["p"], "Components")
    for i in range(r.randint(0, 2)):
        c = new("fill")
        yield c
        yield put(c, q["p"], "Components")
    yield put(s, m["p"], "Slots")


def history(r, steps, files="A", weights=None, classes=None, look=0.2, keys=12, sector=4096, fresh=False, label="", disk=False):
    run = ObjRun(files, sector=sector, fresh=fresh)
    run.hr, run.hold = random.Random(r.random()), r.random() < .4
    run.disk = {} if disk else None
    try:
        g = Gen(run, r, weights, classes, keys)
        first = []
        if steps > 40 and r.random() < 0.5:
            first = [o for f in files for o in [scaffold(g, f)]]
        for i in range(steps):
            o = None
            while first and not o:
                try:
                    o = next(first[0])
                except StopIteration:
                    first.pop(0)
            o = o or g.op()
            ok = run.do(o)
            if run.ev[-1]["r"] in ("lost", "hang") or run.broken:
                break
            if not ok or o["o"] in ("reopen", "copy") or r.random() < look:
                for f in run.names:
                    run.do({"o": "look", "file": f, "held": [x for x in g.tops(f) if x in run.held]})
                if run.ev[-1]["r"] != "ok":
                    break
        else:
            # bring every file to a state that can be saved, then look at it after reopening
            for f in run.names:
                for _ in range(0 if run.readonly(f) else 60):
                    o = g.g_complete(f)
                    if not o:
                        break
                    run.do(o)
                run.do({"o": "reopen", "file": f})
                if run.ev[-1]["r"] == "ok":
                    run.do({"o": "look", "file": f, "held": []})
        return run.trace(label)
    finally:
        run.close()
