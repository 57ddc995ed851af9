"""Parameters of effects: runs histories on the code for spec/TraceParams.tla.

The shadow state (self.p) only picks operands; what holds is decided by the specification."""
from common import *
import aaf2
from aaf2.auid import AUID
from aaf2.rational import AAFRational
from aaf2.misc import VaryingValue, ConstantValue, generate_offset_map
from drv_obj import mobid_of, tok_of

T, V, G = 600, 8, 128                # units of times, values and answers
NONE = 9999
# definitions of parameters: name -> type
DEFS = {"PR1": "Rational", "PR2": "Rational", "PI1": "aafInt32", "PU1": "aafUInt8", "PR3": "Rational"}
HANDLES = [("PP_IN_TANGENT_POS_U", "Rational"), ("PP_IN_TANGENT_VAL_U", "Rational"), ("PP_OUT_TANGENT_POS_U", "Rational"),
           ("PP_OUT_TANGENT_VAL_U", "Rational"), ("PP_BASE_FRAME_U", "aafInt32")]
INTERP = {"lin": ("5b6c85a4-0ede-11d3-80a9-006008143e6f", "LinearInterp"), "const": ("5b6c85a5-0ede-11d3-80a9-006008143e6f", "ConstantInterp"),
          "bezier": ("df394eda-6ac6-4566-8dbe-f28b0bdd781a", "BezierInterpolator"), "cubic": ("a04a5439-8a0e-4cb7-975f-a5b255866883", "CubicInterpolator"),
          "none": ("a04a5439-8a0e-4cb7-975f-a5b255866884", "VfInterp")}
OFAUID = {AUID(v[0]): k for k, v in INTERP.items()}


def units(v, n):
    """v in units of 1/n; a list if it is no number of units"""
    u = round(float(v) * n)
    return u if abs(u - float(v) * n) < 1e-4 else [str(v)]


class Run(object):
    def __init__(self, r):
        self.r = r
        self.dir = tempfile.mkdtemp(prefix="vf_prm_")
        self.f = {}
        for fn in "AB":
            self.f[fn] = aaf2.open(self.path(fn), "w", sector_size=r.choice([512, 4096]))
        self.have = {"A": False, "B": False}
        self.define("A")
        self.p = {}                     # parameter -> [kind, type, interpolation, times]
        self.g = {}                     # group -> the object
        self.cps = {}
        self.empty = set()              # constants without value
        self.ev = []
        self.n = 0
        self.dead = False

    def path(self, fn):
        return os.path.join(self.dir, fn + ".aaf")

    def close(self):
        for f in self.f.values():
            try:
                f.manager.modified = {}
            except Exception:
                pass
        shutil.rmtree(self.dir, ignore_errors=True)

    def define(self, fn):
        """definitions an effect needs, in a file that has none of them"""
        f = self.f[fn]
        op = f.create.OperationDef(AUID("0e0c0000-0000-0000-0000-000000000001"), "VfEffect", "")
        f.dictionary.register_def(op)
        op.media_kind = "picture"
        op["NumberInputs"].value = 1
        for i, (n, t) in enumerate(sorted(DEFS.items())):
            d = f.create.ParameterDef(AUID("0e0c0000-0000-0000-0000-0000000001%02d" % i), n, "", t)
            f.dictionary.register_def(d)
            if self.r.random() < .5:
                op.parameters.extend([d])
        for i, (n, t) in enumerate(HANDLES):
            f.dictionary.register_def(f.create.ParameterDef(AUID("0e0c0000-0000-0000-0000-0000000002%02d" % i), n, "", t))
        for i, n in INTERP.values():
            f.dictionary.register_def(f.create.InterpolationDef(AUID(i), n, ""))
        self.have[fn] = True

    def rec(self, ev, fn):
        r, v = outcome(fn)
        ev["r"] = r
        if r == "ok":
            if v is not None:
                ev["v"] = v
        elif r == "err":
            ev["exc"] = outcome.last[-500:]
        else:
            self.dead = True
        self.ev.append(ev)
        return r == "ok"

    # -------------------------------------------------------------- values
    def time(self):
        r = self.r
        k = r.random()
        if k < .5:
            return T * r.randint(-20, 60)
        return r.choice([1, 1, 24, 150, 120]) * r.randint(-80, 240)

    def pytime(self, t):
        r = self.r
        k = r.random()
        if t % T == 0 and k < .4:
            return t // T
        return t / float(T) if k < .7 else AAFRational(t, T) if k < .9 else AAFRational(2 * t, 2 * T)

    def value(self, ty, bad=.08):
        """(python value, units, good)"""
        r = self.r
        if r.random() < bad:
            return r.choice({"Rational": ["x", "y", b"1"], "aafInt32": ["x", 2 ** 31, -2 ** 31 - 1, [1]], "aafUInt8": [256, -1, "x"]}[ty]), 0, 0
        if ty == "Rational":
            u = r.choice([0, 8, 8, 800 // 4, r.randint(-256, 256), r.randint(-256, 256)])
            k = r.random()
            return (u // V if u % V == 0 and k < .3 else u / float(V) if k < .7 else AAFRational(u, V)), u, 1
        v = r.randint(-30, 30) if ty == "aafInt32" else r.randint(0, 32)
        return v, v * V, 1

    # ------------------------------------------------------------- objects
    def newgroup(self, fn):
        f = self.f[fn]
        self.n += 1
        g = "%s%d" % (fn, self.n)

        def go():
            m = f.create.CompositionMob()
            m.mob_id = mobid_of("K%d" % self.n)
            s = m.create_timeline_slot(25)
            og = f.create.OperationGroup("VfEffect", 10, "picture")
            s.segment = og
            f.content.mobs.append(m)
            self.g[g] = og
        r, _ = outcome(go)
        if r != "ok":
            # told by the next observation
            return
        return g

    def param(self, x):
        g, d = x.split("/")
        for p in self.g[g].parameters:
            if p.parameterdef.name == d:
                return p
        raise KeyError(x)

    def point(self, x, i):
        """a control point, sometimes as a program got it before"""
        if self.r.random() < .3 and (x, i) in self.cps:
            return self.cps[x, i]
        cp = self.param(x).pointlist[i - 1]
        if self.r.random() < .3:
            self.cps[x, i] = cp
        return cp

    def see(self, e):
        o = {}
        for g, og in self.g.items():
            for p in og.parameters:
                v = p["Value"].value if "Value" in p else None
                ip = p["Interpolation"].value if "Interpolation" in p else None
                k = "const" if isinstance(p, ConstantValue) else "vary"
                o["%s/%s" % (g, p.name)] = {"k": k, "ty": p.typedef.type_name, "ip": OFAUID[ip.auid] if ip else "",
                                            "v": (NONE if v is None else units(v, V)) if k == "const" else 0,
                                            "pts": [self.see_point(c) for c in p.pointlist] if k == "vary" else []}
        e["obs"] = o

    def see_point(self, c):
        i, o = c.tangents
        h = c["EditHint"].value
        return {"t": units(c.time, T), "v": units(c.value, V), "ty": c["Value"].typedef.decode_typedef(c["Value"].data).type_name,
                "hint": h or "", "i": [units(i[0], T), units(i[1], V)], "o": [units(o[0], T), units(o[1], V)], "b": units(c.base_frame, 1)}

    # ----------------------------------------------------------- operations
    def step(self):
        r = self.r
        if not self.g or (len(self.g) < 3 and r.random() < .1):
            self.newgroup(r.choice([f for f in "AB" if self.have[f]]))
            return
        vs = [x for x in sorted(self.p) if self.p[x][0] == "vary"]
        cs = [x for x in sorted(self.p) if self.p[x][0] == "const"]
        k = r.choice(["new", "new"] + ["kf"] * 9 + ["rm", "setv", "setv", "sett", "handles", "ip"] + ["cset", "cset", "cat"] + ["idx", "at", "at", "at", "at", "map"]
                     + ["look", "look"] + ["copy"] * (len(self.g) < 5) + ["assign"] * (r.random() < .3) + ["reopen"] * (r.random() < .4))
        e = {"o": k}
        if k == "new":
            return self.new(e)
        if k in ("look", "reopen"):
            return self.rec(e, lambda: self.see(e)) if k == "look" else self.reopen()
        if k == "copy":
            return self.copy(e)
        if k == "assign":
            return self.assign(e)
        if k in ("cset", "cat"):
            if not cs:
                return
            x = e["x"] = r.choice(cs)
            if k == "cat":
                t = r.randint(-5, 5)

                def cat():
                    v = self.param(x).value_at(t)
                    return NONE if v is None else units(v, V)
                return self.rec(e, cat)
            return self.cset(x, *self.value(self.p[x][1], .2))
        if not vs:
            return
        x = e["x"] = r.choice(vs[:2])
        k_, ty, ip, ts = self.p[x]
        if k == "kf":
            if len(ts) > 8:
                return
            t = r.choice(ts) if ts and r.random() < .2 else self.time()
            self.kf(x, t, *self.value(ty))
        elif k == "idx":
            e["t"] = t = self.ask(ts)
            self.rec(e, lambda: self.param(x).nearest_index(self.pytime(t)) + 1)
        elif k == "at":
            e["t"] = t = self.ask(ts)
            pt = self.pytime(t)
            self.rec(e, lambda: round(self.param(x).value_at(pt) * G))
        elif k == "map":
            if ip not in ("lin", "const"):
                return
            e["start"] = r.choice([0, 0, 0, r.randint(-10, 20)])
            e["end"] = -1 if r.random() < .5 else r.randint(max(0, e["start"] - 2), 40)
            kw = {} if e["end"] == -1 else {"end": e["end"]}
            if e["start"] or r.random() < .5:
                kw["start"] = e["start"]
            self.rec(e, lambda: [[units(t, T), round(v * G)] for t, v in generate_offset_map(self.param(x), **kw)])
        elif k == "ip":
            e["ip"] = r.choice(sorted(INTERP) + ["lin", "lin"])
            if not self.known(x, "InterpolationDefinitions", INTERP[e["ip"]][1]):
                return

            def go():
                d = self.param(x).root.dictionary
                self.param(x).interpolationdef = d.lookup_interperlationdef(r.choice([AUID(INTERP[e["ip"]][0]), INTERP[e["ip"]][1]]))
            if self.rec(e, go):
                self.p[x][2] = e["ip"]
        elif not ts:
            return
        else:
            i = e["i"] = r.randint(1, len(ts))
            if k == "rm":
                if self.rec(e, lambda: self.param(x).pointlist.pop(i - 1) and None):
                    del ts[i - 1]
                    self.cps = {}
            elif k == "setv":
                v, e["v"], e["good"] = self.value(ty)

                def go():
                    self.point(x, i).value = v
                self.rec(e, go)
            elif k == "sett":
                lo, hi = ts[i - 2] if i > 1 else ts[0] - T, ts[i] if i < len(ts) else ts[-1] + T
                if hi - lo < 2:
                    return
                t = e["t"] = r.randint(lo + 1, hi - 1)
                pt = self.pytime(t)

                def go():
                    self.point(x, i).time = pt
                if self.rec(e, go):
                    ts[i - 1] = t
            elif k == "handles":
                if not all(self.known(x, "ParameterDefinitions", h[0]) for h in HANDLES):
                    return
                q = lambda n, lo, hi: r.choice([0, r.randint(lo, hi)])
                e["hi"], e["ho"], e["b"] = [-q(0, 0, 4 * T), q(0, -32, 32)], [q(0, 0, 4 * T), q(0, -32, 32)], r.choice([0, 0, 1, 7, -3])
                if r.random() < .2:
                    # handles that point the other way
                    e["hi"][0] = -e["hi"][0]
                    e["ho"][0] = -e["ho"][0]

                def go():
                    cp = self.point(x, i)
                    f = cp.root
                    vs = [AAFRational(e["hi"][0], T), AAFRational(e["hi"][1], V), AAFRational(e["ho"][0], T), AAFRational(e["ho"][1], V), e["b"]]
                    ps = [f.create.ConstantValue(HANDLES[j][0], vs[j]) for j in range(5) if vs[j] != 0 or r.random() < .3]
                    r.shuffle(ps)
                    cp["ControlPointPointProperties"].value = ps
                self.rec(e, go)

    def known(self, x, kind, name):
        """the file of x has the definition (another file has those that were copied to it)"""
        return any(d.name == name for d in self.f[x[0]].dictionary[kind])

    def cset(self, x, v, u, good):
        def go():
            self.param(x).value = v
        if self.rec({"o": "cset", "x": x, "v": u, "good": good}, go):
            self.empty.discard(x)

    def kf(self, x, t, v, u, good):
        ts = self.p[x][3]
        e = {"o": "kf", "x": x, "t": t, "v": u, "good": good, "hint": self.r.choice(["", "", "Proportional", "NoEditHint"])}
        pt = self.pytime(t)
        if self.rec(e, lambda: self.param(x).add_keyframe(pt, v, e["hint"]) and None):
            if t not in ts:
                ts.append(t)
                ts.sort()
            self.cps = {}

    def ask(self, ts):
        r = self.r
        if ts and r.random() < .3:
            return r.choice(ts)
        if len(ts) > 1 and r.random() < .7:
            i = r.randrange(len(ts) - 1)
            return r.randint(ts[i], ts[i + 1])
        return self.time()

    def new(self, e):
        r = self.r
        g = r.choice(sorted(self.g))
        free = [d for d in sorted(DEFS) if "%s/%s" % (g, d) not in self.p]
        if not free:
            return
        d = r.choice(free)
        if not self.known(g, "ParameterDefinitions", d):
            return
        x = e["x"] = "%s/%s" % (g, d)
        e["k"], e["ty"] = r.choice(["const", "vary", "vary"]), DEFS[d]
        e["v"], e["ip"], e["good"] = 0, "", 1
        f = self.g[g].root
        way = r.random()
        if e["k"] == "const":
            v, e["v"], e["good"] = self.value(DEFS[d])
            if way < .2:
                e["v"], e["good"] = NONE, 1

            def go():
                if way < .2:
                    p = f.create.ConstantValue(d)
                elif way < .6:
                    p = f.create.ConstantValue(d, v)
                else:
                    p = f.create.ConstantValue()
                    p.parameterdef = f.dictionary.lookup_parameterdef(d)
                    p.value = v
                self.g[g].parameters.append(p)
        else:
            e["ip"] = r.choice(["lin", "lin", "lin", "const", "bezier", "bezier", "cubic", "none"])
            if not self.known(g, "InterpolationDefinitions", INTERP[e["ip"]][1]):
                return

            def go():
                n = INTERP[e["ip"]][1]
                if way < .5:
                    p = f.create.VaryingValue(d, r.choice([n, n.lower(), f.dictionary.lookup_interperlationdef(n)]))
                else:
                    p = f.create.VaryingValue()
                    p.parameterdef = f.dictionary.lookup_parameterdef(d)
                    p.interpolation = f.dictionary.lookup_interperlationdef(n)
                self.g[g].parameters.append(p)
        if self.rec(e, go):
            self.p[x] = [e["k"], e["ty"], e["ip"], []]
            self.empty.discard(x)
            if e["v"] == NONE:
                self.empty.add(x)

    def copy(self, e):
        r = self.r
        g = r.choice(sorted(self.g))
        fn = r.choice("AB")
        self.n += 1
        h = "%s%d" % (fn, self.n)
        e["xs"] = [[x, x.replace(g + "/", h + "/")] for x in sorted(self.p) if x.startswith(g + "/")]

        def go():
            mob = self.g[g].root.content.mobs.get(mobid_of("K" + g[1:]))
            m = mob.copy(root=self.f[fn])
            m.mob_id = mobid_of("K%d" % self.n)
            self.f[fn].content.mobs.append(m)
            self.g[h] = list(m.slots)[0].segment
        if self.rec(e, go):
            for a, b in e["xs"]:
                self.p[b] = self.p[a][:3] + [list(self.p[a][3])]
                if a in self.empty:
                    self.empty.add(b)
        else:
            self.dead = True

    def assign(self, e):
        r = self.r
        g = r.choice(sorted(self.g))
        xs = [x for x in sorted(self.p) if x.startswith(g + "/")]
        r.shuffle(xs)
        keep = xs[:r.randint(0, len(xs))]
        e["xs"] = [x for x in xs if x not in keep]

        def go():
            ps = [self.param(x) for x in keep]
            og = self.g[g]
            if r.random() < .3:
                og.parameters.clear()
            elif r.random() < .3:
                for p in ps:
                    og.parameters.pop(p.auid)
            og.parameters = ps
        if self.rec(e, go):
            for x in e["xs"]:
                del self.p[x]
            self.cps = {}
        else:
            self.dead = True

    def reopen(self):
        # a file is saved with parameters that have a value only
        for x in sorted(self.p):
            k, ty, ip, ts = self.p[x]
            v, u, good = self.value(ty, 0)
            if k == "const" and x in self.empty:
                self.cset(x, v, u, good)
            elif k == "vary" and not ts:
                self.kf(x, 0, v, u, good)
        e = {"o": "reopen"}

        def go():
            self.cps = {}
            for fn in "AB":
                self.f[fn].close()
                self.f[fn] = aaf2.open(self.path(fn), "rw")
                for g in list(self.g):
                    if g[0] == fn:
                        self.g[g] = list(self.f[fn].content.mobs.get(mobid_of("K" + g[1:])).slots)[0].segment
            self.see(e)
        if not self.rec(e, go):
            self.dead = True


def history(r, steps, label):
    run = Run(r)
    try:
        for _ in range(steps):
            run.step()
            if run.dead:
                break
        else:
            run.reopen()
        return {"init": {}, "ev": run.ev, "label": label}
    finally:
        run.close()


def histories(c, n, steps, salt):
    return c.sharded(lambda i: history(rng(salt, i), steps, "%s %d" % (salt, i)), range(n))
