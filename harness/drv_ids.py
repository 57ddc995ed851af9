"""Ids: runs histories of identifiers on the code for spec/TraceIds.tla."""
from common import *
import copy
import uuid
import aaf2
from aaf2.auid import AUID
from aaf2.mobid import MobID

HALF = [6, 14, 43, 52, 127, 127]
BAD = object()


def hexs(b):
    return "".join("%02x" % x for x in b)


def num(b):
    return int(hexs(b) or "0", 16)


def bnum(v, n):
    return list(bytearray(v.to_bytes(n, "big"))) if 0 <= v < 256 ** n else [-1]


def spelled(s, n):
    """bytes of a text in its usual form"""
    s = str(s)
    return list(bytearray.fromhex(s)) if len(s) == 2 * n else [-1]


def le(b):
    b = list(b)
    return b[3::-1] + b[5:3:-1] + b[7:5:-1] + b[8:]


def dashed(s):
    return "%s-%s-%s-%s-%s" % (s[:8], s[8:12], s[12:16], s[16:20], s[20:])


def dotted(s):
    p = [s[:8], s[8:16], s[16:24], s[24:32], s[32:40], s[40:48], s[48:56], s[56:]]
    return ".".join(p)


class Run(object):
    def __init__(self, r):
        self.r = r
        self.ev = []
        self.a = {}
        self.m = {}
        self.dead = False
        self.dir = tempfile.mkdtemp(prefix="vf_ids_")

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def rec(self, ev, fn):
        r, v = outcome(fn)
        ev["r"] = r
        if r == "ok":
            if v is not None:
                ev["v"] = v
        elif r == "err":
            ev["exc"] = outcome.last[-300:]
        else:
            self.dead = True
        self.ev.append(ev)
        return r == "ok"

    def some(self, n):
        """bytes that tell orders and halves apart"""
        r = self.r
        k = r.random()
        if k < .1:
            return [0] * n
        if k < .15:
            return [255] * n
        b = [r.choice([0, 1, 6, 14, 43, 52, 127, 128, 255, r.randrange(256)]) for _ in range(n)] if k < .6 else list(bytearray(r.randbytes(n)))
        return b

    def auid_bytes(self):
        r = self.r
        if self.a and r.random() < .4:        # near another
            b = list(bytearray(self.a[r.choice(sorted(self.a))].bytes_be))
            if len(b) == 16 and r.random() < .7:
                i = r.randrange(16)
                b[i] = (b[i] + r.choice([1, 255, 128])) % 256
            return b if len(b) == 16 else self.some(16)
        return self.some(16)

    def mob_bytes(self):
        """as stored"""
        r = self.r
        if self.m and r.random() < .4:
            b = list(bytearray(self.m[r.choice(sorted(self.m))].bytes_le))
            if len(b) == 32 and r.random() < .7:
                i = r.randrange(32)
                b[i] = (b[i] + r.choice([1, 255, 128])) % 256
            return b if len(b) == 32 else self.some(32)
        b = [6, 10, 43, 52, 1, 1, 1, r.choice([1, 5]), 1, 1, 15, r.choice([0, 0, 32])] + [19, 0, 0, r.choice([0, 0, 1, 255])] + self.some(16) if r.random() < .8 else self.some(32)
        k = r.random()
        if k < .25:
            b[24:30] = HALF
        elif k < .4:
            b[16:32] = le(HALF + self.some(10))
        elif k < .45:
            b[24:29] = HALF[:5]
        if r.random() < .3:
            b[11] = 0
        return b

    def case(self, s):
        r = self.r
        k = r.random()
        return s.upper() if k < .2 else "".join(r.choice([c, c.upper()]) for c in s) if k < .4 else s

    def auid_text(self, b):
        s = hexs(b)
        k = self.r.randrange(6)
        return [self.case(s), self.case(dashed(s)), "{" + self.case(dashed(s)) + "}", "urn:uuid:" + self.case(dashed(s)), "{" + self.case(s) + "}", self.case(dashed(s))][k]

    def mob_text(self, b):
        s = hexs(b)
        d = dotted(s)
        g = "%s-%s-%s-%s-%s" % (s[:24], s[24:26], s[26:32], s[32:48], s[48:])
        k = self.r.randrange(7)
        return ["urn:smpte:umid:" + self.case(d), self.case(d), self.case(s), self.case(g), "0x" + self.case(s), "URN:SMPTE:UMID:" + d.upper(), "urn:smpte:umid:" + s][k]

    def bad_text(self, s):
        """s spoiled: a digit more or fewer, or one that is none"""
        r = self.r
        digits = [i for i, c in enumerate(s) if c in "0123456789abcdefABCDEF" and i >= len(s) - 28 - 4 * (s[-1] == "}")]
        i = r.choice(digits)
        k = r.randrange(6)
        if k == 0:
            return s[:i] + s[i + 1:]
        if k == 1:
            return s[:i] + "7" + s[i:]
        if k == 2:
            return s[:i] + r.choice("ghz*,/") + s[i + 1:]
        if k == 3:
            return s[:i] + r.choice([" ", "+", "_", "-"]) + s[i + 1:]
        if k == 4:
            j = r.choice(digits[:-1])
            return s[:j] + "  " + s[j + 2:]
        return r.choice(["", " " * 32, "urn:uuid:", "-" * 32, s + s])

    # ----------------------------------------------------------- operations
    def step(self):
        r = self.r
        ks = ["auid"] * 4 + ["mob"] * 4
        if self.a:
            ks += ["forms"] * 3 + ["cmp", "cmp", "sort", "adup", "aset"]
        if self.m:
            ks += ["set"] * 6 + ["mforms"] * 4 + ["mcmp", "mcmp", "msort", "new", "material", "mdup", "mdup"] + ["msetm"] * bool(self.a)
        if self.a and self.m and r.random() < .1:
            ks += ["file"] * 6
        k = r.choice(ks)
        getattr(self, "op_" + k)()

    def op_auid(self):
        r = self.r
        x = "a%d" % r.randrange(5)
        b = self.auid_bytes()
        how = r.choice(["hex", "hex", "le", "be", "int", "uuid", "auid", "bad", "bad"])
        e = {"o": "auid", "x": x, "how": how, "b": b}
        if how == "hex":
            t = e["text"] = self.auid_text(b)
            make = lambda: AUID(t)
        elif how == "le":
            make = lambda: AUID(bytes_le=r.choice([bytes, bytearray])(b))
        elif how == "be":
            make = lambda: AUID(bytes_be=r.choice([bytes, bytearray])(b))
        elif how == "int":
            make = lambda: AUID(int=num(b))
        elif how == "uuid":
            make = lambda: AUID(uuid.UUID(bytes=bytes(b)))
        elif how == "auid":
            make = lambda: AUID(AUID(hexs(b)))
        else:
            t = self.bad_text(self.auid_text(b))
            n = r.choice([-1, 256 ** 16, -256 ** 16, 256 ** 17 + 5])
            k = r.random()
            if k < .8:
                e["text"] = t
                make = lambda: AUID(t)
            elif k < .95:
                e["text"] = str(n)
                make = lambda: AUID(int=n)
            else:
                make = lambda: AUID()

        def go():
            self.a[x] = make()
        self.rec(e, go)

    def op_forms(self):
        x = self.r.choice(sorted(self.a))
        a = self.a[x]

        def go():
            u = a.uuid
            b = AUID(bytes_le=bytes(a.bytes_le))
            p = {"d1": bnum(a.data1, 4), "d2": bnum(a.data2, 2), "d3": bnum(a.data3, 2), "d4": list(bytearray(a.data4))}
            return {"hex": spelled(a.hex, 16), "str": spelled(str(a).replace("-", ""), 16) if str(a) == dashed(a.hex) else [-1], "int": bnum(a.int, 16), "be": list(bytearray(a.bytes_be)),
                    "le": list(bytearray(a.bytes_le)), "uuid": list(bytearray(u.bytes)), "parts": p, "copy": list(bytearray(AUID(str(a)).bytes_be)),
                    "hasheq": int(hash(b) == hash(a) and b == a and not b != a), "uuideq": int(a == u and u == a), "uuidkey": int(u in {a: 1} and a in {u: 1})}
        self.rec({"o": "forms", "x": x}, go)

    def op_mob(self):
        r = self.r
        x = "m%d" % r.randrange(5)
        b = self.mob_bytes()
        how = r.choice(["text", "text", "raw", "int", "null", "dict", "bad", "bad"])
        e = {"o": "mob", "x": x, "how": how, "b": b}
        if how == "text":
            if r.random() < .5:      # as written
                b[16:32] = b[24:32] + le(b[16:32])[:8] if b[24:30] == HALF and b[11] == 0 else le(b[16:32])
            t = e["text"] = self.mob_text(b)
            make = lambda: MobID(t)
        elif how == "raw":
            make = lambda: MobID(bytes_le=r.choice([bytes, bytearray])(b))
        elif how == "int":
            make = lambda: MobID(int=num(b))
        elif how == "null":
            make = lambda: MobID()
        elif how == "dict":
            def make():
                m = MobID()
                m.from_dict(self.as_dict(b))
                return m
        else:
            t = self.bad_text(self.mob_text(b))
            n = r.choice([-1, 256 ** 32, -256 ** 32, 256 ** 33 + 5])
            if r.random() < .8:
                e["text"] = t
                make = lambda: MobID(t)
            else:
                e["text"] = str(n)
                make = lambda: MobID(int=n)

        def go():
            self.m[x] = make()
        self.rec(e, go)

    def as_dict(self, b):
        w = le(b[16:])
        return {"SMPTELabel": b[:12], "length": b[12], "instanceHigh": b[13], "instanceMid": b[14], "instanceLow": b[15],
                "material": {"Data1": num(w[:4]), "Data2": num(w[4:6]), "Data3": num(w[6:8]), "Data4": w[8:]}}

    def op_set(self):
        r = self.r
        x = r.choice(sorted(self.m))
        m = self.m[x]
        b = self.mob_bytes()
        w = le(b[16:])
        f = r.choice(["urn", "int", "label", "length", "instanceHigh", "instanceMid", "instanceLow", "material", "Data1", "Data2", "Data3", "Data4", "bad", "bad", "bad"])
        e = {"o": "set", "x": x, "f": f}
        attr = "SMPTELabel" if f == "label" else f
        if f == "urn":
            e["b"] = b
            v = e["text"] = self.mob_text(b)
        elif f == "int":
            e["b"], v = b, num(b)
        elif f == "label":
            e["b"] = b[:12]
            v = r.choice([list, tuple, bytearray, bytes])(b[:12])
        elif f in ("length", "instanceHigh", "instanceMid", "instanceLow"):
            v = r.randrange(256)
            e["b"] = [v]
        elif f == "material":
            e["b"] = w
            v = r.choice([AUID(hexs(w)), uuid.UUID(hexs(w))])
        elif f in ("Data1", "Data2", "Data3"):
            e["b"] = {"Data1": w[:4], "Data2": w[4:6], "Data3": w[6:8]}[f]
            v = num(e["b"])
        elif f == "Data4":
            e["b"] = w[8:]
            v = r.choice([list, tuple, bytearray, bytes])(w[8:])
        else:
            attr, v = r.choice([("urn", self.bad_text(self.mob_text(b)))] * 6 +
                               [("int", 256 ** 32), ("int", -1), ("length", 256), ("instanceLow", -1), ("instanceMid", 256), ("instanceHigh", "1"), ("Data1", 2 ** 32), ("Data2", -1), ("Data3", 65536),
                                ("Data4", b[:7]), ("Data4", b[:9]), ("Data4", b[:7] + [256]), ("SMPTELabel", b[:11]), ("SMPTELabel", b[:11] + [-1]), ("SMPTELabel", b[:13]), ("material", None), ("material", 5),
                                ("dict", dict(self.as_dict(b), instanceLow=256)), ("dict", dict(self.as_dict(b), SMPTELabel=[1] * 11 + [300])), ("dict", dict(self.as_dict(b), material={"Data1": 1, "Data2": 2, "Data3": 3, "Data4": [1] * 7}))])
            e["text"] = "%s %r" % (attr, v)

        def go():
            if attr == "dict":
                m.from_dict(v)
            else:
                setattr(m, attr, v)
        self.rec(e, go)
        if f == "bad":
            self.op_mforms(x)

    def fields(self, d):
        p = d["material"]
        return {"label": list(d["SMPTELabel"]), "length": d["length"], "inst": [d["instanceHigh"], d["instanceMid"], d["instanceLow"]],
                "material": bnum(p["Data1"], 4) + bnum(p["Data2"], 2) + bnum(p["Data3"], 2) + list(p["Data4"]),
                "parts": {"d1": bnum(p["Data1"], 4), "d2": bnum(p["Data2"], 2), "d3": bnum(p["Data3"], 2), "d4": list(p["Data4"])}}

    def op_mforms(self, x=None):
        x = x or self.r.choice(sorted(self.m))
        m = self.m[x]

        def go():
            t = m.urn
            s = t[len("urn:smpte:umid:"):].replace(".", "")
            c = MobID(bytes_le=bytes(m.bytes_le))
            d = MobID()
            d.from_dict(m.to_dict())
            f = {"label": list(bytearray(m.SMPTELabel)), "length": m.length, "inst": [m.instanceHigh, m.instanceMid, m.instanceLow], "material": list(bytearray(m.material.bytes_be)),
                 "parts": {"d1": bnum(m.Data1, 4), "d2": bnum(m.Data2, 2), "d3": bnum(m.Data3, 2), "d4": list(bytearray(m.Data4))}}
            words = t.count(".") in (7, 8) and t.startswith("urn:smpte:umid:") and t == t.lower()
            return {"urn": spelled(s, 32) if words else [-1], "str": spelled(str(m)[15:].replace(".", ""), 32), "int": bnum(m.int, 32) if m.int == int(m) else [-1], "le": list(bytearray(m.bytes_le)), "fields": f,
                    "dict": self.fields(m.to_dict()), "fromdict": list(bytearray(d.bytes_le)), "copy": list(bytearray(c.bytes_le)), "hasheq": int(hash(c) == hash(m) and c == m and not c != m),
                    "spoken": list(bytearray(MobID(self.r.choice([t, str(m)])).bytes_le))}
        self.rec({"o": "mforms", "x": x}, go)

    def compare(self, t, R):
        r = self.r
        x, y = r.choice(sorted(R)), r.choice(sorted(R))
        a, b = R[x], R[y]

        def go():
            eq, lt, gt = a == b, a < b, a > b
            assert (a != b) == (not eq)
            if t == "m":
                assert (a <= b) == (eq or lt) and (a >= b) == (eq or gt)
            return {"eq": int(eq), "lt": int(lt), "gt": int(gt), "key": int(b in {a: 1})}
        self.rec({"o": "cmp", "t": t, "x": x, "y": y}, go)

    def op_cmp(self):
        self.compare("a", self.a)

    def op_mcmp(self):
        self.compare("m", self.m)

    def sorts(self, t, R):
        def go():
            out, n, last = {}, -1, None
            for v in sorted(R.values()):
                if last is None or v != last:
                    n += 1
                last = v
                for x in R:
                    if R[x] is v:
                        out[x] = n
            return out
        self.rec({"o": "sort", "t": t}, go)

    def op_sort(self):
        self.sorts("a", self.a)

    def op_msort(self):
        self.sorts("m", self.m)

    def op_new(self):
        x = "m%d" % self.r.randrange(5)
        e = {"o": "new", "x": x}

        def go():
            m = MobID.new()
            e["b"] = list(bytearray(m.bytes_le))
            self.m[x] = m
        self.rec(e, go)

    def op_material(self):
        x, y = self.r.choice(sorted(self.m)), "a%d" % self.r.randrange(5)

        def go():
            self.a[y] = self.m[x].material
        self.rec({"o": "material", "x": x, "y": y}, go)

    def op_adup(self):
        x, y = "a%d" % self.r.randrange(5), self.r.choice(sorted(self.a))
        how = self.r.randrange(5)

        def go():
            a = self.a[y]
            self.a[x] = [lambda: AUID(a), lambda: AUID(bytes_le=a.bytes_le), lambda: AUID(bytes_be=a.bytes_be), lambda: AUID(a.uuid), lambda: copy.deepcopy(a)][how]()
        self.rec({"o": "dup", "t": "a", "x": x, "y": y, "how": how}, go)

    def op_mdup(self):
        x, y = "m%d" % self.r.randrange(5), self.r.choice(sorted(self.m))
        how = self.r.randrange(5)

        def go():
            m = self.m[y]
            n = MobID()
            if how == 0:
                n = MobID(bytes_le=m.bytes_le)
            elif how == 1:
                n.from_dict(m.to_dict())
            elif how == 2:
                n.int = m.int
            elif how == 3:
                n.SMPTELabel, n.length, n.instanceHigh, n.instanceMid, n.instanceLow, n.material = m.SMPTELabel, m.length, m.instanceHigh, m.instanceMid, m.instanceLow, m.material
            else:
                n = copy.deepcopy(m)
            self.m[x] = n
        self.rec({"o": "dup", "t": "m", "x": x, "y": y, "how": how}, go)

    def op_aset(self):
        x, b = self.r.choice(sorted(self.a)), self.auid_bytes()

        def go():
            self.a[x].bytes_be = bytearray(b)
        self.rec({"o": "aset", "x": x, "b": b}, go)

    def op_msetm(self):
        x, y = self.r.choice(sorted(self.m)), self.r.choice(sorted(self.a))

        def go():
            self.m[x].material = self.a[y]
        self.rec({"o": "msetm", "x": x, "y": y}, go)

    def op_file(self):
        x, y = self.r.choice(sorted(self.m)), self.r.choice(sorted(self.a))
        path = os.path.join(self.dir, "f.aaf")

        def go():
            with aaf2.open(path, "w") as f:
                m = f.create.MasterMob("m")
                m.mob_id = self.m[x]
                m["Generation"].value = self.a[y]
                f.content.mobs.append(m)
            with aaf2.open(path) as f:
                m = list(f.content.mobs)[0]
                assert f.content.mobs.get(self.m[x]) is m
                return {"m": list(bytearray(m.mob_id.bytes_le)), "a": list(bytearray(m["Generation"].value.bytes_be))}
        self.rec({"o": "file", "x": x, "y": y}, go)


def history(r, steps, label):
    run = Run(r)
    try:
        for _ in range(steps):
            run.step()
            if run.dead:
                break
        return {"init": {}, "ev": run.ev, "label": label}
    finally:
        run.close()


def histories(c, n, steps, salt):
    return c.sharded(lambda i: history(rng(salt, i), steps, "%s %d" % (salt, i)), range(n))
