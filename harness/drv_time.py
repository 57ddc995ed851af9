"""Timelines and references between mobs: runs histories on the code for spec/TraceTimeline.tla.

The shadow state (self.m) only picks operands; what holds is decided by the specification."""
from common import *
import copy
from fractions import Fraction
import aaf2
from aaf2.auid import AUID
from aaf2.mobid import MobID
from drv_obj import mobid_of, tok_of

KINDS = {"cmob": "CompositionMob", "mmob": "MasterMob", "smob": "SourceMob"}
CLS = {"seq": "Sequence", "fill": "Filler", "trans": "Transition", "nest": "NestedScope", "opg": "OperationGroup", "sel": "Selector",
       "egrp": "EssenceGroup", "pull": "Pulldown", "tc": "Timecode", "clip": "SourceClip"}
KIDS = {"seq": "Components", "nest": "Slots", "opg": "InputSegments", "egrp": "Choices", "pull": "InputSegment", "trans": "OperationGroup"}
RATES = ["25", "30", "24000/1001", "30000/1001", "48000", "1"]
OPDEF = AUID("0e0a0000-0000-0000-0000-0000000000aa")
SLOTK = {"time": "TimelineMobSlot", "event": "EventMobSlot", "static": "StaticMobSlot"}
NOSEG = {"k": "none", "kids": []}
TOP, SUB = "Usage_TopLevel", "Usage_SubClip"


def total(c):
    return sum(-x["len"] if x["k"] == "trans" else x["len"] for x in c)


def legal(c):
    def tl(i):
        return c[i]["len"] if 0 <= i < len(c) and c[i]["k"] == "trans" else 0
    for i, x in enumerate(c):
        if x["len"] <= 0:
            return False
        if x["k"] == "trans":
            if i in (0, len(c) - 1) or c[i - 1]["k"] == "trans" or c[i + 1]["k"] == "trans":
                return False
        elif x["len"] < tl(i - 1) + tl(i + 1):
            return False
    return True


class Run(object):
    def __init__(self, r):
        self.r = r
        self.dir = tempfile.mkdtemp(prefix="vf_time_")
        self.path = os.path.join(self.dir, "t.aaf")
        self.f = aaf2.open(self.path, "w", sector_size=r.choice([512, 4096]))
        d = self.f.create.OperationDef(OPDEF, "VfOp", "")
        d.media_kind = "picture"
        d["NumberInputs"].value = 1
        self.f.dictionary.register_def(d)
        self.held = {}
        self.m = {}
        self.ev = []
        self.n = 0
        self.keys = 0
        self.dead = False
        self.lens = r.choice([[1, 2, 3, 4, 6], [1, 2, 5, 10, 25, 50, 100], [1, 7, 1000, 90000, 2 ** 24]])

    def close(self):
        try:
            self.f.manager.modified = {}
        except Exception:
            pass
        shutil.rmtree(self.dir, ignore_errors=True)

    def rec(self, ev, fn, walk=False):
        got = []

        def go():
            v = fn(got)
            return v
        r, v = outcome(go)
        ev["r"] = r
        if r == "ok":
            ev["v"] = "" if v is None else v
        else:
            ev["v"] = got if walk else ""
            if r == "err":
                ev["exc"] = outcome.last[-600:]
        self.ev.append(ev)
        if r == "hang":
            self.dead = True
        return r == "ok"

    # ------------------------------------------------------------ objects
    def mob(self, k):
        if k not in self.held:
            self.held[k] = self.f.content.mobs.get(mobid_of(k))
        return self.held[k]

    def slot(self, k, i):
        return self.mob(k)["Slots"][i - 1]

    def kid(self, o, k, i):
        if k == "sel":
            return o["Selected"].value if i == 1 else o["Alternates"][i - 2]
        if k in ("pull", "trans"):
            return o[KIDS[k]].value
        return o[KIDS[k]][i - 1]

    def obj(self, k, i, p):
        o = self.slot(k, i).segment
        g = self.m[k]["slots"][i - 1]["seg"]
        for j in p:
            o, g = self.kid(o, g["k"], j), g["kids"][j - 1]
        return o

    def get(self, k, i, p):
        g = self.m[k]["slots"][i - 1]["seg"]
        for j in p:
            g = g["kids"][j - 1]
        return g

    def label(self, o, n):
        o["Generation"].value = AUID(int=n + 1)

    def build(self, g):
        c = self.f.create
        k, mk = g["k"], g["mk"].lower()
        if k == "clip":
            if self.r.random() < .5:
                o = c.SourceClip(g["start"], g["len"], mobid_of(g["mob"]) if g["mob"] else None, g["slot"], mk)
            else:
                o = c.SourceClip(media_kind=mk)
                o.length, o.start, o.slot_id = g["len"], g["start"], g["slot"]
                if g["mob"]:
                    o.mob_id = mobid_of(g["mob"])
        elif k == "opg":
            o = c.OperationGroup(OPDEF, g["len"], mk)
        elif k == "tc":
            o = c.Timecode(25, length=g["len"])
        else:
            o = getattr(c, CLS[k])(mk, g["len"])
        self.label(o, g["n"])
        kids = [self.build(x) for x in g["kids"]]
        if k == "sel":
            o["Selected"].value = kids[0]
            o["Alternates"].value = kids[1:]
        elif k == "pull":
            o["InputSegment"].value = kids[0]
            o["PulldownKind"].value, o["PulldownDirection"].value, o["PhaseFrame"].value = "TwoThreePD", "TapeToFilmSpeed", 0
        elif k == "trans":
            o["OperationGroup"].value = kids[0]
            o.cutpoint = g["len"] // 2
        elif k in KIDS:
            o[KIDS[k]].value = kids
        return o

    # --------------------------------------------------------- projection
    def see(self, o):
        if o is None:
            return dict(NOSEG)
        k = [x for x in CLS if type(o).__name__ == CLS[x]]
        k = k[0] if k else type(o).__name__
        g = {"n": self.num(o), "k": k, "len": o.length, "mk": o.media_kind, "kids": [], "mob": "", "slot": 0, "start": 0}
        if k == "clip":
            g["mob"] = tok_of(o.mob_id) if o.mob_id.int else ""
            g["slot"], g["start"] = o.slot_id, o.start
        elif k == "sel":
            g["kids"] = [o["Selected"].value] + list(o["Alternates"].value or [])
        elif k in ("pull", "trans"):
            g["kids"] = [o[KIDS[k]].value]
        elif k in KIDS:
            g["kids"] = list(o[KIDS[k]].value)
        g["kids"] = [self.see(x) for x in g["kids"]]
        return g

    def num(self, o):
        return int(o["Generation"].value.int) - 1

    def see_slot(self, s):
        k = [x for x in SLOTK if type(s).__name__ == SLOTK[x]][0]
        return {"sid": s.slot_id, "k": k, "rate": str(Fraction(s.edit_rate)) if k != "static" else "", "seg": self.see(s.segment)}

    def see_mob(self, m, att):
        return {"kind": [k for k in KINDS if type(m).__name__ == KINDS[k]][0], "usage": m.usage or "", "att": att,
                "slots": [self.see_slot(s) for s in m.slots]}

    def look(self, e):
        def go(_):
            obs = {}
            ms = list(self.f.content.mobs)
            for m in ms:
                obs[tok_of(m.mob_id)] = self.see_mob(m, 1)
            for k in self.m:
                if not self.m[k]["att"]:
                    obs[k] = self.see_mob(self.mob(k), 0)
            e["obs"] = obs
        return self.rec(e, go)

    # ---------------------------------------------------------- operands
    def new_n(self):
        self.n += 1
        return self.n

    def node(self, k, ln=None, mk=None, **kw):
        g = {"n": self.new_n(), "k": k, "len": self.r.choice(self.lens) if ln is None else ln, "mk": mk or "Picture", "kids": [], "mob": "",
             "slot": 0, "start": 0}
        g.update(kw)
        return g

    def someref(self):
        r = self.r
        if r.random() < .1 or not self.m:
            return {"mob": "K%d" % (900 + r.randint(0, 3)) if r.random() < .5 else "", "slot": r.randint(0, 2), "start": 0}
        k = r.choice(sorted(self.m))
        sids = [s["sid"] for s in self.m[k]["slots"]] + [1, 2]
        s = [x for x in self.m[k]["slots"] if x["seg"]["k"] == "seq"]
        if s and r.random() < .7:
            x = r.choice(s)
            c = x["seg"]["kids"]
            cuts = [total(c[:i]) for i in range(len(c) + 1)]
            start = r.choice(cuts + [r.randint(0, max(1, total(c)))]) + r.choice([-1, 0, 0, 0, 1])
            return {"mob": k, "slot": x["sid"], "start": start}
        return {"mob": k, "slot": r.choice(sids), "start": r.choice([0, 0, 1, 5])}

    def tree(self, depth=0, ks=None, mk=None):
        r = self.r
        if ks is None:
            ks = ["clip"] * 4 + ["fill"] * 2 + (["seq"] * 4 + ["nest", "opg", "sel", "egrp", "pull"] if depth < 2 else []) + ([] if depth else ["tc"])
        k = r.choice(ks)
        mk = mk or r.choice(["Picture", "Picture", "Sound"])
        g = self.node(k, None if k != "seq" else r.choice([0, r.choice(self.lens)]), "Timecode" if k == "tc" else mk)
        if k == "clip":
            g.update(self.someref())
        elif k == "seq":
            for _ in range(r.choice([0, 1, 2, 3, 4, 6])):
                x = self.tree(depth + 1, mk=mk) if r.random() < .7 else self.trans(depth, mk)
                self.add(g["kids"], len(g["kids"]), x)
            if len(g["kids"]) > 1 and g["kids"][-1]["k"] == "trans":
                g["kids"].pop()
            if not legal(g["kids"]):
                g["kids"] = []
        elif k == "nest" or k == "opg":
            g["kids"] = [self.tree(depth + 1, mk=mk) for _ in range(r.choice([0, 1, 2, 3]))]
        elif k == "sel":
            g["kids"] = [self.tree(depth + 1, mk=mk) for _ in range(r.choice([1, 2, 3]))]
        elif k == "egrp":
            g["kids"] = [self.tree(depth + 1, ["clip"], mk) for _ in range(r.choice([1, 2]))]
        elif k == "pull":
            g["kids"] = [self.tree(depth + 1, ["clip", "fill"], mk)]
        return g

    def trans(self, depth, mk):
        g = self.node("trans", self.r.choice(self.lens[:3]), mk)
        o = self.node("opg", g["len"], mk)
        if self.r.random() < .5:
            o["kids"] = [self.tree(3, ["clip", "fill"], mk)]
        g["kids"] = [o]
        return g

    def add(self, c, i, x):
        """put x into the components c if AAF allows it (a transition at the end waits for its successor)"""
        d = c[:i] + [x] + c[i:]
        e = d + [{"k": "fill", "len": 10 ** 9}] if d[-1]["k"] == "trans" else d
        if legal(e):
            c[:] = d
            return True
        return False

    def paths(self, pred, att=False):
        out = []

        def walk(k, i, p, g):
            if g["k"] != "none" and pred(g):
                out.append((k, i, p))
            for j, x in enumerate(g["kids"], 1):
                walk(k, i, p + [j], x)
        for k in sorted(self.m):
            for i, s in enumerate(self.m[k]["slots"], 1):
                walk(k, i, [], s["seg"])
        return out

    def attached(self):
        return [k for k in sorted(self.m) if self.m[k]["att"]]

    # --------------------------------------------------------- operations
    def newmob(self):
        r = self.r
        self.keys += 1
        k = "K%d" % self.keys
        kind = r.choice(["cmob", "cmob", "mmob", "smob"])
        usage = r.choice(["", "", TOP, TOP, SUB]) if kind != "smob" else r.choice(["", TOP])

        def go(_):
            o = getattr(self.f.create, KINDS[kind])("mob " + k)
            o.mob_id = mobid_of(k)
            if usage:
                o.usage = usage
            if kind == "smob":
                o.descriptor = self.f.create.TapeDescriptor()
            self.held[k] = o
        if self.rec({"o": "newmob", "m": k, "kind": kind, "usage": usage}, go):
            self.m[k] = {"kind": kind, "usage": usage, "att": 0, "slots": []}
            if r.random() < .85:
                self.attach(k)

    def attach(self, k):
        if self.rec({"o": "attach", "m": k}, lambda _: self.f.content.mobs.append(self.mob(k))):
            self.m[k]["att"] = 1

    def newslot(self, k):
        r = self.r
        m = self.mob(k)
        sids = [s["sid"] for s in self.m[k]["slots"]]
        sid = -1 if r.random() < .65 else r.choice(sids + [0, 1, 2, 3, 4, 7])
        rate = r.choice(RATES)
        arg = int(rate) if "/" not in rate and r.random() < .5 else rate
        x = r.choice(["slot", "slot", "seqslot", "seqslot"] + (["clipslot", "tcslot", "tape"] if self.m[k]["kind"] == "smob" else []))
        e = {"o": x, "m": k, "sid": sid, "rate": rate, "got": -1}
        n = self.new_n()
        seg = NOSEG
        pysid = None if sid == -1 else sid
        if x == "slot":
            def go(_):
                return m.create_timeline_slot(arg, pysid)
        elif x == "seqslot":
            mk = r.choice(["Picture", "Sound"])
            e.update({"n": n, "mk": mk})
            seg = self.node("seq", 0, mk)
            conv = sid == -1 and r.random() < .5

            def go(_):
                if conv:
                    s = (m.create_picture_slot if mk == "Picture" else m.create_sound_slot)(arg)
                else:
                    s = m.create_empty_sequence_slot(arg, pysid, mk.lower())
                self.label(s.segment, n)
                return s
        elif x == "clipslot":
            mk = r.choice(["Picture", "Sound"])
            e.update({"n": n, "mk": mk})
            seg = self.node("clip", 0, mk)

            def go(_):
                s = m.create_empty_slot(arg, mk.lower(), pysid)
                self.label(s.segment, n)
                return s
        else:
            ln, fps = r.choice([0, 0, 100, 5000]), r.choice([24, 25, 30, 60])
            e.update({"len": ln, "fps": fps, "n": n})
            if x == "tcslot":
                e["sid"] = -1
                seg = self.node("tc", ln or fps * 43200, "Timecode")

                def go(_):
                    s = m.create_timecode_slot(arg, fps, r.random() < .5, ln or None)
                    self.label(s.segment, n)
                    return s
            else:
                e["sid"] = -1
                q = Fraction(rate)
                self.new_n()
                e.update({"mk": "Picture", "num": q.numerator, "den": q.denominator})

                def go(_):
                    a, s = m.create_tape_slots("tape", arg, fps, r.random() < .5, "picture", ln or None)
                    self.label(a.segment, n)
                    self.label(s.segment, n + 1)
                    return s
        r2 = []

        def call(_):
            s = go(_)
            r2.append(s)
            e["got"] = s.slot_id
            return ""
        if self.rec(e, call):
            if x == "tape":
                self.m[k]["slots"].append({"sid": 1, "k": "time", "rate": rate, "seg": self.node("clip", e["num"] * 43200 // e["den"], "Picture", n=n)})
                seg = self.node("tc", ln or fps * 43200, "Timecode")
                seg["n"] = n + 1
            elif seg is not NOSEG:
                seg["n"] = n
            self.m[k]["slots"].append({"sid": e["got"], "k": "time", "rate": rate, "seg": seg if seg is not NOSEG else dict(NOSEG)})

    def step(self):
        r = self.r
        f = self.f
        ks = sorted(self.m)
        if len(ks) < 2 or (len(ks) < 7 and r.random() < .1):
            return self.newmob()
        k = r.choice(ks)
        M = self.m[k]
        x = r.choice(["newslot"] * 5 + ["addslot", "addslot", "rmslot", "sid", "usage", "attach", "detach"] + ["seg"] * 5 + ["ins"] * 7 + ["rm"] * 3 + ["len"] * 3 +
                     ["ref"] * 7 + ["clipfrom"] * 6 + ["positions"] * 4 + ["at"] * 12 + ["length"] * 6 + ["slotat"] * 2 + ["target"] * 5 + ["walk"] * 8 +
                     ["deps"] * 8 + ["list"] * 2 + ["look", "reopen", "gc"])
        if x == "newslot":
            self.newslot(k)
        elif x == "addslot":
            g = self.tree()
            sk = r.choice(["time", "time", "event", "static"])
            sids = [s["sid"] for s in M["slots"]]
            s = {"sid": r.choice([0, 1, 2, 3, 5, 9] + sids), "k": sk, "rate": r.choice(RATES) if sk != "static" else "", "seg": g}

            def go(_):
                o = getattr(f.create, SLOTK[sk])(s["sid"], "slot")
                if sk != "static":
                    o.edit_rate = s["rate"]
                o.segment = self.build(g)
                self.mob(k).slots.append(o)
            if self.rec({"o": "addslot", "m": k, "s": s}, go):
                M["slots"].append(copy.deepcopy(s))
        elif x == "usage":
            u = r.choice([TOP, SUB])

            def go(_):
                self.mob(k).usage = u
            if self.rec({"o": "usage", "m": k, "usage": u}, go):
                M["usage"] = u
        elif x == "attach":
            if M["att"] and r.random() < .8:
                return
            self.attach(k)
        elif x == "detach":
            if not M["att"] or r.random() < .5:
                return

            def go(_):
                self.mob(k)
                f.content.mobs.pop(mobid_of(k))
            if self.rec({"o": "detach", "m": k}, go):
                M["att"] = 0
        elif x == "list":
            w = r.choice(["all", "top", "cmob", "mmob", "smob"])
            c = f.content
            fn = {"all": lambda: c.mobs, "top": c.toplevel, "cmob": c.compositionmobs, "mmob": c.mastermobs, "smob": c.sourcemobs}[w]
            self.rec({"o": "list", "what": w}, lambda _: [tok_of(m.mob_id) for m in fn()])
        elif x == "deps":
            self.rec({"o": "deps", "m": k}, lambda _: [tok_of(m.mob_id) for m in self.mob(k).dependant_mobs()])
        elif x == "slotat":
            sid = r.choice([s["sid"] for s in M["slots"]] + [1, 2])

            def go(_):
                s = self.mob(k).slot_at(sid)
                return [i for i, y in enumerate(self.mob(k).slots, 1) if y is s][0]
            self.rec({"o": "slotat", "m": k, "sid": sid}, go)
        elif x == "gc":
            import gc
            for y in list(self.held):
                if self.m[y]["att"]:
                    del self.held[y]
            gc.collect()
        elif x == "look":
            self.look({"o": "look"})
        elif x == "reopen":
            self.reopen()
        elif x == "clipfrom":
            self.clipfrom(k)
        elif not M["slots"]:
            self.newslot(k)
        else:
            i = r.randint(1, len(M["slots"]))
            S = M["slots"][i - 1]
            if x == "rmslot":
                if self.rec({"o": "rmslot", "m": k, "i": i}, lambda _: self.mob(k).slots.pop(i - 1) and None):
                    del M["slots"][i - 1]
            elif x == "sid":
                n = r.randint(0, 9)

                def go(_):
                    self.slot(k, i).slot_id = n
                if self.rec({"o": "sid", "m": k, "i": i, "sid": n}, go):
                    S["sid"] = n
            elif x == "seg":
                g = self.tree()

                def go(_):
                    self.slot(k, i).segment = self.build(g)
                if self.rec({"o": "seg", "m": k, "i": i, "g": g}, go):
                    S["seg"] = copy.deepcopy(g)
            elif x == "length":
                self.rec({"o": "length", "m": k, "i": i}, lambda _: self.slot(k, i).length)
            else:
                self.inner(x)

    def inner(self, x):
        r = self.r
        if x in ("ins", "rm", "positions", "at"):
            kinds = ("seq",) if x in ("positions", "at") else ("seq", "seq", "nest", "opg")
            c = self.paths(lambda g: g["k"] in kinds and (x != "at" or g["kids"]))
        elif x == "len":
            c = self.paths(lambda g: True)
        else:
            c = self.paths(lambda g: g["k"] == "clip")
        if not c:
            return
        k, i, p = r.choice(c)
        g = self.get(k, i, p)
        e = {"o": x, "m": k, "i": i, "p": p}
        if x == "positions":
            self.rec(e, lambda _: [[a + 1, b, self.num(o)] for a, b, o in self.obj(k, i, p).positions()])
        elif x == "at":
            n = total(g["kids"])
            cuts = [total(g["kids"][:j]) for j in range(len(g["kids"]) + 1)]
            for t in [r.choice(cuts) + r.choice([-1, 0, 0, 1]) for _ in range(2)] + [r.randint(-1, max(2, n + 2))]:
                e2 = dict(e, t=t)

                def go(_):
                    s = self.obj(k, i, p)
                    o = s.component_at_time(t)
                    if s.components[s.index_at_time(t)] is not o:
                        return "inconsistent"
                    return self.num(o)
                self.rec(e2, go)
        elif x == "target":
            def go(_):
                o = self.obj(k, i, p)
                m, s = o.mob, o.slot
                if m is None:
                    return ["", 0 if s is None else -1]
                return [tok_of(m.mob_id), [j for j, y in enumerate(m.slots, 1) if y is s][0]]
            self.rec(e, go)
        elif x == "walk":
            def go(got):
                for o in self.obj(k, i, p).walk():
                    got.append(self.num(o))
                    if len(got) > 60:
                        break
                return got
            self.rec(e, go, True)
        elif x == "ref":
            ref = self.someref()
            e.update(ref)
            by = r.random() < .4 and ref["mob"] in self.m

            def go(_):
                o = self.obj(k, i, p)
                if by:
                    o.mob = self.mob(ref["mob"])
                elif ref["mob"]:
                    o.mob_id = mobid_of(ref["mob"])
                else:
                    o.mob_id = MobID()
                o.slot_id, o.start = ref["slot"], ref["start"]
            if self.rec(e, go):
                g.update(ref)
        elif x == "len":
            n = r.choice(self.lens)
            old, g["len"] = g["len"], n
            if p:
                q = self.get(k, i, p[:-1])
                if q["k"] == "seq" and not legal(q["kids"]):
                    g["len"] = old
                    return
            e["len"] = n

            def go(_):
                self.obj(k, i, p).length = n
            self.rec(e, go)
        elif x == "ins":
            at = r.randint(0, len(g["kids"]))
            y = self.trans(0, g["mk"]) if g["k"] == "seq" and r.random() < .4 else self.tree(len(p) + 1, mk=g["mk"])
            if g["k"] == "seq":
                d = g["kids"][:at] + [y] + g["kids"][at:]
                if not legal(d):
                    return
            e.update({"at": at + 1, "g": y})

            def go(_):
                o = self.obj(k, i, p)
                v = o.components if g["k"] == "seq" else o.segments if g["k"] == "opg" else o.slots
                v.insert(at, self.build(y))
            if self.rec(e, go):
                g["kids"].insert(at, copy.deepcopy(y))
        elif x == "rm":
            if not g["kids"]:
                return
            at = r.randint(0, len(g["kids"]) - 1)
            d = g["kids"][:at] + g["kids"][at + 1:]
            if g["k"] == "seq" and not legal(d):
                return
            e["at"] = at + 1

            def go(_):
                self.obj(k, i, p)[KIDS[g["k"]]].pop(at)
            if self.rec(e, go):
                del g["kids"][at]

    def clipfrom(self, k):
        r = self.r
        M = self.m[k]
        sids = [s["sid"] for s in M["slots"]]
        sid = r.choice(sids) if sids and r.random() < .9 else r.randint(0, 9)
        start, ln, mk = r.choice([0, 0, 1, 3, 10, 1000]), r.choice([0, 0, 0, 5]), r.choice(["", "", "Sound"])
        e = {"o": "clipfrom", "m": k, "sid": sid, "start": start, "len": ln, "mk": mk}
        got = []

        def go(_):
            c = self.mob(k).create_source_clip(sid, start or None, ln or None, mk.lower() or None)
            got.append(c)
            return [tok_of(c.mob_id), c.slot_id, c.start, c.length, c.media_kind]
        if self.rec(e, go):
            # put it into a sequence
            v = self.ev[-1]["v"]
            c = self.paths(lambda g: g["k"] == "seq")
            if not c or v[3] <= 0:
                return
            kk, i, p = r.choice(c)
            g = self.get(kk, i, p)
            y = self.node("clip", v[3], v[4], mob=v[0], slot=v[1], start=v[2])
            at = r.choice([0, len(g["kids"])])
            if not legal(g["kids"][:at] + [y] + g["kids"][at:]):
                return

            def put(_):
                self.label(got[0], y["n"])
                self.obj(kk, i, p).components.insert(at, got[0])
            if self.rec({"o": "ins", "m": kk, "i": i, "p": p, "at": at + 1, "g": y}, put):
                g["kids"].insert(at, copy.deepcopy(y))

    def reopen(self):
        # slots must have segments to be saved
        for k in self.attached():
            for i, s in enumerate(self.m[k]["slots"], 1):
                if s["seg"]["k"] == "none":
                    g = self.node("fill", 1)

                    def go(_):
                        self.slot(k, i).segment = self.build(g)
                    if self.rec({"o": "seg", "m": k, "i": i, "g": g}, go):
                        s["seg"] = copy.deepcopy(g)
        e = {"o": "reopen"}
        for k in list(self.m):
            if not self.m[k]["att"]:
                del self.m[k]

        def go(_):
            self.f.close()
            self.held.clear()
            self.f = aaf2.open(self.path, "rw")
            e["obs"] = dict((tok_of(m.mob_id), self.see_mob(m, 1)) for m in self.f.content.mobs)
        if not self.rec(e, go):
            self.dead = True

    def trace(self, label):
        return {"init": {}, "ev": self.ev, "label": label}


def history(r, steps, label):
    run = Run(r)
    try:
        for _ in range(steps):
            run.step()
            if run.dead:
                break
        else:
            run.look({"o": "look"})
            run.reopen()
        return run.trace(label)
    finally:
        run.close()


def histories(c, n, steps, salt):
    return c.sharded(lambda i: history(rng(salt, i), steps, "%s %d" % (salt, i)), range(n))
