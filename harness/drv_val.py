"""Executes histories of property values (spec/Values.tla) on objects of every class of the data model.
The objects sit in a vector added to ContentStorage by an extension property, which accepts any class."""
from common import *
import copy as pycopy, datetime, io, shutil, struct, tempfile, uuid
from decimal import Decimal
from fractions import Fraction
import aaf2
from aaf2 import core
from aaf2.auid import AUID
from aaf2.mobid import MobID
from aaf2.rational import AAFRational
import aafimg
from aafimg import auid, text

BOX, BOXREF, BOXVEC = (str(uuid.UUID(int=(0xB0C5 << 100) + i)) for i in range(3))
CLASSDEF = "0d010101-0201-0000-060e-2b3402060101"
TYPEDEF = "0d010101-0203-0000-060e-2b3402060101"
INTERCHANGE = "0d010101-0101-0100-060e-2b3402060101"
BOOL = "01040100-0000-0000-060e-2b3401040101"
AUID_T, MOBID_T = "01030100-0000-0000-060e-2b3401040101", "01030200-0000-0000-060e-2b3401040101"
RATIONAL, DATE, TIME, STAMP = ("0301%s-0000-0000-060e-2b3401040101" % x for x in ("0100", "0500", "0600", "0700"))
STRING, INT32 = "01100200-0000-0000-060e-2b3401040101", "01010700-0000-0000-060e-2b3401040101"
T = "0d010101-02%s-0000-060e-2b3402060101"
T_RENAME, T_EXT, T_IND, T_OPAQUE, T_CHAR = T % "0e", T % "20", T % "21", T % "22", T % "23"
ISO7 = "01100400-0000-0000-060e-2b3401040101"
DROP = {"TypeDefinition", "MetaDictionary", "ClassDefinition", "PropertyDefinition", "MetaDefinition", "Root", "Header", "ContentStorage", "Dictionary"}


def num(n):
    m, d = abs(n), []
    while m:
        d.append(m & 255)
        m >>= 8
    return {"k": "int", "neg": 1 if n < 0 else 0, "d": d}


def ident(u):
    return list(uuid.UUID(str(u)).bytes)


def utf16list(b):
    s = bytes(b).decode("utf-16le")
    return s.split("\0")[:-1]


class Model(object):
    """types and classes, read from a saved file by the independent reader"""

    def __init__(self, img):
        self.a = img
        self.terms, self.ids, self.memo = [], {}, {}

    def term(self, t):
        if t not in self.memo:
            self.memo[t] = self.build(t)
        return self.memo[t]

    def index(self, t):
        if t not in self.ids:
            self.ids[t] = len(self.terms)
            self.terms.append(self.term(t))
        return self.ids[t]

    def build(self, t):
        a = self.a
        o = a.types[t]

        def ref(pid):
            return auid(bytes.fromhex(a.index(o, pid)["keys"][0]))
        if t == BOOL:
            return {"k": "bool"}
        if t == AUID_T:
            return {"k": "auid"}
        if t == MOBID_T:
            return {"k": "mobid"}
        if o.cls == aafimg.T_INT:
            return {"k": "int", "n": o.props[0xF][1][0], "s": o.props[0x10][1][0]}
        if o.cls == aafimg.T_ENUM:
            vals = struct.unpack("<%dq" % (len(o.props[0x16][1]) // 8), o.props[0x16][1])
            return {"k": "enum", "e": self.term(ref(0x14)), "names": utf16list(o.props[0x15][1]), "vals": [num(v) for v in vals]}
        if o.cls == aafimg.T_FIXED:
            return {"k": "fixed", "e": self.term(ref(0x17)), "n": struct.unpack("<I", o.props[0x18][1])[0]}
        if o.cls == aafimg.T_VAR:
            e = ref(0x19)
            return {"k": "strs"} if a.types[e].cls == T_CHAR else {"k": "var", "e": self.term(e)}
        if o.cls == aafimg.T_SET:
            return {"k": "set", "e": self.term(ref(0x1A))}
        if o.cls == aafimg.T_STRING:
            return {"k": "str"}
        if o.cls == aafimg.T_RECORD:
            ts = [auid(bytes.fromhex(h)) for h in a.index(o, 0x1C)["keys"]]
            return {"k": "rec", "f": [self.term(x) for x in ts], "names": utf16list(o.props[0x1D][1]), "id": t}
        if o.cls == T_RENAME:
            return self.term(ref(0x1E))
        if o.cls == T_EXT:
            b = o.props[0x20][1]
            return {"k": "ext", "names": utf16list(o.props[0x1F][1]), "ids": [ident(auid(b[i:i + 16])) for i in range(0, len(b), 16)]}
        if o.cls in (T_IND, T_OPAQUE):
            return {"k": "ind"}
        return {"k": "other"}

    def classes(self):
        """concrete classes whose objects can be put in the box"""
        a = self.a
        for c, (o, parent, props) in sorted(a.classes.items()):
            lin = a.lineage(c)
            if lin is None or INTERCHANGE not in lin or o.props[0xA][1] != b"\1":
                continue
            if DROP & set(a.class_name(x) for x in lin):
                continue
            yield c

    def data_props(self, c):
        """name -> (type id, required) of the plain values of class c"""
        out = {}
        for pid, p in self.a.propdefs(c):
            t = auid(p.props[0xB][1])
            fmt, _ = self.a.fmt_of_type(t)
            if fmt != aafimg.DATA or t == ISO7 or text(p.props[6][1]) == "ObjClass":
                continue
            if p.props.get(0xE, (0, b"\0"))[1] == b"\1":
                continue                    # unique keys: C09
            if pid == 0x4C01:
                continue                    # Parameter.Definition, a key too
            out[text(p.props[6][1])] = (t, p.props[0xC][1] == b"\0")
        return out

    def required_refs(self, c):
        for pid, p in self.a.propdefs(c):
            t = auid(p.props[0xB][1])
            fmt, rc = self.a.fmt_of_type(t)
            if text(p.props[6][1]) == "ObjClass":
                continue
            if fmt != aafimg.DATA and p.props[0xC][1] == b"\0":
                yield text(p.props[6][1]), fmt, rc
            elif fmt == aafimg.DATA and (p.props.get(0xE, (0, b"\0"))[1] == b"\1" or pid == 0x4C01):
                yield text(p.props[6][1]), "key", t


# ------------------------------------------------------------- python values
SURR = [0xD800, 0xDBFF, 0xDC00, 0xDFFF]
CHARS = [1, 9, 0x41, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x4e2d, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x103ff, 0x10400, 0x1f600, 0x10ffff]


class Bad(object):
    """a value of no type"""
    def __repr__(self):
        return "<bad>"


class Values(object):
    def __init__(self, r, model):
        self.r, self.m = r, model

    def some_int(self, n, s):
        r = self.r
        lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if s else (0, (1 << (8 * n)) - 1)
        k = r.random()
        if k < 0.3:
            return r.choice([lo, hi, lo + 1, hi - 1, 0, 1, min(hi, 255), min(hi, 256)])
        if k < 0.36:
            return r.choice([lo - 1, hi + 1, hi * 3, -(1 << 70)])
        if k < 0.38:
            return Bad()
        return r.randint(lo, hi) if r.random() < 0.5 else max(lo, min(hi, r.randint(-3, 300)))

    def some_str(self, big):
        r = self.r
        n = r.choice([0, 1, 2, 5, 30])
        if big:
            n = r.choice([32766, 32767, 40000])
            return "x" * n
        cs = [r.choice(CHARS) if r.random() < 0.5 else r.randint(32, 126) for _ in range(n)]
        if n and r.random() < 0.04:
            cs[r.randrange(n)] = r.choice(SURR)
        return "".join(map(chr, cs))

    def make(self, t, top=True):
        """-> (what the program passes, the model's value)"""
        r = self.r
        k = t["k"]
        big = top and r.random() < 0.012
        if r.random() < 0.02 and k not in ("bool", "ind", "int", "str"):
            return object(), {"k": "bad"}
        if k == "int":
            v = self.some_int(t["n"], t["s"])
            if isinstance(v, Bad):
                return r.choice(["7", None, [1]]) if not top else r.choice(["7", [1], 1.5]), {"k": "bad"}
            return v, num(v)
        if k == "bool":
            v = r.random() < 0.5
            return v, num(int(v))
        if k == "enum":
            if r.random() < 0.06:
                return "no such name", {"k": "name", "s": "no such name"}
            i = r.randrange(len(t["names"]))
            if r.random() < 0.5:
                return t["names"][i], {"k": "name", "s": t["names"][i]}
            v = t["vals"][i]
            n = sum(d << (8 * j) for j, d in enumerate(v["d"])) * (-1 if v["neg"] else 1)
            return n, v
        if k == "ext":
            if r.random() < 0.06:
                return "no such name", {"k": "name", "s": "no such name"}
            i = r.randrange(len(t["names"]))
            if r.random() < 0.6:
                s = t["names"][i]
                return r.choice([s, s.lower(), s.upper()]), {"k": "name", "s": s}
            b = t["ids"][i]
            if r.random() < 0.1:
                b = [r.randrange(256) for _ in range(16)]
            u = uuid.UUID(bytes=bytes(b))
            return AUID(str(u)), {"k": "id", "b": b}
        if k in ("fixed", "var", "set", "strs"):
            if k == "strs":
                e = {"k": "str"}
            else:
                e = t["e"]
            n = r.choice([0, 1, 2, 3, 7])
            if k == "fixed":
                n = r.choice([0, 1, t["n"] - 1, t["n"], t["n"], t["n"] + 1])
            if big and k == "var" and e["k"] == "int":
                n = r.choice([65535, 65536]) // e["n"] + r.choice([0, 1])
                v = [1] * n
                return v, {"k": "seq", "s": [num(1)] * n}
            xs = [self.make(e, False) for _ in range(max(0, n))]
            if r.random() < 0.75:            # mostly storable members
                xs = [x for x in xs if self.ok(e, x[1])]
            if k == "set":
                py = []
                out = []
                for x in xs:
                    if e["k"] == "enum" and x[1]["k"] == "int" or x[1] in out:
                        continue            # one form of each member
                    try:
                        hash(x[0])
                    except TypeError:
                        continue
                    py.append(x[0]); out.append(x[1])
                return set(py), {"k": "set", "s": out}
            return r.choice([list, tuple])(x[0] for x in xs), {"k": "seq", "s": [x[1] for x in xs]}
        if k == "str":
            s = self.some_str(big)
            return s, {"k": "str", "c": [ord(c) for c in s]}
        if k == "auid":
            b = [r.randrange(256) for _ in range(16)]
            u = uuid.UUID(bytes=bytes(b))
            return r.choice([AUID(str(u)), u]), {"k": "id", "b": b}
        if k == "mobid":
            b = [r.randrange(256) for _ in range(32)]
            b[11] = r.choice([1, 0x20, 0xff])
            return MobID("urn:smpte:umid:" + bytes(b).hex()), {"k": "id", "b": b}
        if k == "rec":
            return self.record(t)
        if k == "ind":
            return self.indirect()
        raise RuntimeError(k)

    def record(self, t):
        r = self.r
        i = t["id"]
        if i == RATIONAL:
            n, d = self.some_int(4, 1), r.choice([1, 2, 25, 1001, 0x7fffffff, self.r.randint(1, 10 ** 6), -3])
            if isinstance(n, Bad):
                return r.choice(["x", "1//2", [1]]), {"k": "bad"}
            form = r.randrange(8)
            if form < 2:
                v = AAFRational(n, d)
            elif form == 2 and d > 0:
                v = "%d/%d" % (n, d)
            elif form == 3:
                v, d = n, 1
            elif form == 4:
                # a floating point number is stored as the fraction it stands for
                q = Fraction(r.choice([n, r.randint(-10 ** 5, 10 ** 5)]), r.choice([1, 7, 100, 1001, 10 ** 6, r.randint(1, 10 ** 6)]))
                if q.denominator > 1 and abs(q.numerator) >= 0x7fffffff:
                    q = Fraction(1, 3)
                v, n, d = float(q), q.numerator, q.denominator
            elif form == 5:
                k = r.choice([1, 3, 6])
                v, d = ("-" if n < 0 else "") + "%d.%0*d" % (abs(n) // 10 ** k, k, abs(n) % 10 ** k), 10 ** k
            elif form == 6:
                k = r.choice([1, 3, 6])
                v = Decimal(n).scaleb(-k)
                n, d = Fraction(n, 10 ** k).numerator, Fraction(n, 10 ** k).denominator
            else:
                v = Fraction(n, d)
                n, d = v.numerator, v.denominator
            return v, {"k": "rec", "s": [num(n), num(d)]}
        if i in (DATE, TIME, STAMP):
            dt = datetime.datetime(r.choice([1, 1600, 1970, 2000, 2024, 9999]), r.randint(1, 12), r.randint(1, 28),
                                   r.randint(0, 23), r.randint(0, 59), r.randint(0, 59))
            da = {"k": "rec", "s": [num(dt.year), num(dt.month), num(dt.day)]}
            ti = {"k": "rec", "s": [num(dt.hour), num(dt.minute), num(dt.second), num(0)]}
            if i == DATE:
                return dt.date(), da
            if i == TIME:
                return dt.time(), ti
            return dt, {"k": "rec", "s": [da, ti]}
        xs = [self.make(e, False) for e in t["f"]]
        d = dict(zip(t["names"], [x[0] for x in xs]))
        m = [x[1] for x in xs]
        if r.random() < 0.04:
            d.pop(r.choice(t["names"]))
            return d, {"k": "bad"}
        return d, {"k": "rec", "s": m}

    def indirect(self):
        r = self.r
        c = r.random()
        if c < 0.45:
            t, (v, m) = STRING, self.make({"k": "str"})
        elif c < 0.75:
            t, (v, m) = INT32, self.make({"k": "int", "n": 4, "s": 1})
            if m["k"] == "bad":
                return {}, m
        elif c < 0.95:
            n, d = r.randint(-9, 10 ** 6), r.randint(1, 10 ** 5)
            t, v, m = RATIONAL, AAFRational(n, d), {"k": "rec", "s": [num(n), num(d)]}
        else:
            return r.choice([[1], b"x", {}]), {"k": "bad"}
        return v, {"k": "ind", "id": ident(t), "ty": slim(self.m.term(t)), "v": m}

    def ok(self, t, v):
        """rough: keeps most collections storable, the specification decides"""
        if v["k"] == "bad":
            return False
        if v["k"] == "str":
            return not set(v["c"]) & set(SURR)
        if v["k"] == "int" and t["k"] == "int":
            n = sum(d << (8 * j) for j, d in enumerate(v["d"])) * (-1 if v["neg"] else 1)
            return (-(1 << (8 * t["n"] - 1)) <= n < (1 << (8 * t["n"] - 1))) if t["s"] else 0 <= n < (1 << (8 * t["n"]))
        if v["k"] == "rec":
            return all(self.ok(a, b) for a, b in zip(t["f"], v["s"]))
        if v["k"] == "name":
            return v["s"] in t["names"]
        if v["k"] == "id" and t["k"] == "ext":
            return v["b"] in t["ids"]
        return True

    # ------------------------------------------------------------------ raw
    def raw(self, t):
        """bytes another program could have stored"""
        r = self.r
        k = t["k"]
        rb = lambda n: [r.choice([0, 1, 0x7f, 0x80, 0xff, r.randrange(256)]) for _ in range(n)]
        if k == "int":
            return rb(t["n"])
        if k == "bool":
            return [r.choice([0, 1])]
        if k == "enum":
            v = r.choice(t["vals"])
            n = sum(d << (8 * j) for j, d in enumerate(v["d"])) * (-1 if v["neg"] else 1)
            return list((n & ((1 << (8 * t["e"]["n"])) - 1)).to_bytes(t["e"]["n"], "little"))
        if k == "ext":
            return list(uuid.UUID(bytes=bytes(r.choice(t["ids"]))).bytes_le) if r.random() < 0.7 else rb(16)
        if k == "auid":
            return rb(16)
        if k == "mobid":
            b = rb(32)
            b[11] = 0x20
            return b
        if k == "str":
            s = "".join(chr(r.choice(CHARS)) for _ in range(r.randint(0, 6)))
            return list(s.encode("utf-16le")) + [0, 0]
        if k == "strs":
            return sum((self.raw({"k": "str"}) for _ in range(r.randint(0, 3))), [])
        if k in ("fixed", "var", "set"):
            n = t["n"] if k == "fixed" else r.randint(0, 4)
            xs = []
            for _ in range(n):
                x = self.raw(t["e"])
                if k != "set" or x not in xs:
                    xs.append(x)
            return sum(xs, [])
        if k == "rec":
            if t["id"] == RATIONAL:
                return rb(4) + [r.randint(1, 255), 0, 0, r.choice([0, 0x80])]
            if t["id"] == DATE:
                return list(struct.pack("<hBB", r.choice([1, 1999, 9999]), r.randint(1, 12), r.randint(1, 28)))
            if t["id"] == TIME:
                return [r.randint(0, 23), r.randint(0, 59), r.randint(0, 59), r.choice([0, 99, 249])]
            return sum((self.raw(e) for e in t["f"]), [])
        raise RuntimeError(k)


def slim(t):
    """the part of a type term the specification uses"""
    t = dict((k, v) for k, v in t.items() if not (t["k"] == "rec" and k in ("names", "id")))
    if "e" in t:
        t["e"] = slim(t["e"])
    if "f" in t:
        t["f"] = [slim(x) for x in t["f"]]
    return t


def canon(t, v):
    """what the API returned, as a value of the model; 'bad' when it is no value of the type"""
    try:
        return canon_(t, v)
    except Exception as e:
        return {"k": "bad", "why": "%s: %r" % (type(e).__name__, v)[:200]}


def canon_(t, v):
    k = t["k"]
    if k == "int":
        if type(v) is not int:
            raise ValueError("not an int")
        return num(v)
    if k == "bool":
        if type(v) is not bool:
            raise ValueError("not a bool")
        return num(int(v))
    if k in ("enum", "ext"):
        if isinstance(v, str):
            return {"k": "name", "s": v}
        return {"k": "id", "b": ident(v)}
    if k == "strs":
        return {"k": "seq", "s": [canon_({"k": "str"}, x) for x in v]}
    if k in ("fixed", "var"):
        if not isinstance(v, (list, tuple)):
            raise ValueError("not a sequence")
        return {"k": "seq", "s": [canon_(t["e"], x) for x in v]}
    if k == "set":
        if not isinstance(v, (set, frozenset)):
            raise ValueError("not a set")
        return {"k": "set", "s": [canon_(t["e"], x) for x in v]}
    if k == "str":
        if not isinstance(v, str):
            raise ValueError("not a string")
        return {"k": "str", "c": [ord(c) for c in v]}
    if k == "auid":
        if not isinstance(v, AUID):
            raise ValueError("not an AUID")
        return {"k": "id", "b": ident(v)}
    if k == "mobid":
        if not isinstance(v, MobID):
            raise ValueError("not a MobID")
        return {"k": "id", "b": list(bytes.fromhex(str(v)[15:].replace(".", "")))}
    if k == "rec":
        if t["id"] == RATIONAL and not isinstance(v, dict):
            return {"k": "rec", "s": [num(v.numerator), num(v.denominator)]}
        if isinstance(v, datetime.datetime):
            v = {"date": v.date(), "time": v.time()}
        if isinstance(v, datetime.date):
            v = {"year": v.year, "month": v.month, "day": v.day}
        if isinstance(v, datetime.time):
            v = {"hour": v.hour, "minute": v.minute, "second": v.second, "fraction": v.microsecond}
        if sorted(v) != sorted(t["names"]):
            raise ValueError("members")
        return {"k": "rec", "s": [canon_(e, v[n]) for e, n in zip(t["f"], t["names"])]}
    raise ValueError(k)


def spoil(v):
    """the program goes on changing the value it passed or received"""
    if isinstance(v, list):
        v.append(99)
        v[0] = 77
    elif isinstance(v, set):
        v.clear()
    elif isinstance(v, dict):
        for x in list(v.values()):
            spoil(x)
        v.clear()
    elif isinstance(v, AUID):
        v.bytes_be = bytearray(range(16))
    elif isinstance(v, MobID):
        v.instanceLow = (v.instanceLow + 1) & 255
        v.Data1 = v.Data1 ^ 1
    elif isinstance(v, bytearray):
        v[:] = b""


_T = {}


def zoo():
    """types of every kind, made of one another, and a class with a property of each"""
    ids = iter(range(1, 200))
    new = lambda: str(uuid.UUID(int=(0x200 << 100) + next(ids)))
    b = lambda n: "0101%02x00-0000-0000-060e-2b3401040101" % n      # 1-4 unsigned, 5-8 signed, 1 2 4 8 bytes
    t = {}
    m = {}

    def add(cat, name, *args):
        t[name] = new()
        m.setdefault(cat, {})[name] = (t[name],) + args
    add("enums", "VfEnum1", b(1), {0: "VfE_zero", 1: "VfE_one", 255: "VfE_top"})
    add("enums", "VfEnum2s", b(6), {-32768: "VfS_min", -1: "VfS_neg", 0: "VfS_zero", 5: "VfS_five", 32767: "VfS_max"})
    add("enums", "VfEnum8", b(8), {-2 ** 63: "VfL_min", 0: "VfL_zero", 2 ** 63 - 1: "VfL_max"})
    add("extenums", "VfExt", dict((new(), "VfX_%d" % i) for i in range(4)))
    add("records", "VfPair", (("a", b(6)), ("b", t["VfEnum1"])))
    add("fixed_arrays", "VfFix3", b(7), 3)
    add("fixed_arrays", "VfFixE", t["VfEnum2s"], 2)
    add("fixed_arrays", "VfFixR", t["VfPair"], 3)
    add("fixed_arrays", "VfFixA", AUID_T, 2)
    add("fixed_arrays", "VfFixFix", t["VfFix3"], 2)
    add("records", "VfDeep", (("p", t["VfPair"]), ("i", AUID_T), ("m", MOBID_T), ("t", BOOL), ("f", t["VfFix3"]), ("r", RATIONAL), ("u", b(4))))
    add("renames", "VfRenI", b(5))
    add("renames", "VfRenE", t["VfEnum2s"])
    add("renames", "VfRenR", t["VfDeep"])
    for n, e in (("B", BOOL), ("E", t["VfEnum2s"]), ("L", t["VfEnum8"]), ("R", t["VfDeep"]), ("A", AUID_T), ("M", MOBID_T), ("F", t["VfFixR"]), ("I", b(8)),
                 ("X", t["VfExt"]), ("Q", RATIONAL), ("D", DATE), ("N", t["VfRenI"]), ("C", "01100100-0000-0000-060e-2b3401040101")):
        add("var_arrays", "VfVec" + n, e)
    for n, e in (("I", b(6)), ("E", t["VfEnum2s"]), ("A", AUID_T), ("M", MOBID_T), ("Q", RATIONAL), ("B", BOOL)):
        add("sets", "VfSet" + n, e)
    add("records", "VfRen", (("n", t["VfRenI"]), ("e", t["VfRenE"])))
    add("renames", "VfTwin", b(1))
    add("records", "VfTwins", (("n", t["VfTwin"]), ("m", b(8)), ("o", t["VfTwin"])))
    add("strings", "VfString", "01100100-0000-0000-060e-2b3401040101")
    props = dict(("p" + k[2:], (new(), None, i, True, False)) for k, i in t.items())
    return m, (new(), "InterchangeObject", True, props)


def base(sector):
    """a file with the box"""
    if sector not in _T:
        d = tempfile.mkdtemp(prefix="vf_val_")
        p = os.path.join(d, "t.aaf")
        with aaf2.open(p, "w", sector_size=sector) as f:
            md = f.metadict
            md.register_typedef_model({"strongrefs": {"VfRef": (BOXREF, INTERCHANGE)}, "var_arrays": {"VfVec": (BOXVEC, BOXREF)}})
            m, c = zoo()
            md.register_typedef_model(m)
            md.register_classdef("VfZoo", *c)
            # another type with the name of one of them
            md.register_typedef_model({"renames": {"VfTwin": (str(uuid.UUID(int=0x201 << 100)), "0101%02x00-0000-0000-060e-2b3401040101" % 7)}})
            md.lookup_classdef("ContentStorage").register_propertydef("VfBox", BOX, None, "VfVec", True)
        with open(p, "rb") as g:
            _T[sector] = (g.read(), Model(aafimg.AafImage(p)))
        shutil.rmtree(d)
    return _T[sector]


class ValRun(object):
    OWNER = {"OperationDefinition": "OperationDefinitions", "InterpolationDefinition": "InterpolationDefinitions"}

    def __init__(self, r, sector=4096):
        self.r = r
        data, self.m = base(sector)
        self.v = Values(r, self.m)
        self.dir = tempfile.mkdtemp(prefix="vf_val_")
        self.path = os.path.join(self.dir, "a.aaf")
        with open(self.path, "wb") as g:
            g.write(data)
        self.f = aaf2.open(self.path, "rw", extensions=r.random() < 0.5)
        self.x = {}             # name -> (class, {prop: (type id, required)})
        self.obj = {}
        self.handles = {}
        self.order = []
        self.ev = []
        self.dead = False
        self.pending = []
        self.f.content["VfBox"].value = []

    def close(self):
        outcome(self.f.close)
        shutil.rmtree(self.dir, ignore_errors=True)

    # ---------------------------------------------------------------- making
    def bare(self, c, depth=0):
        """an object of class c with the references its class requires"""
        f = self.f
        o = core.AAFObject.__new__(core.AAFObject)
        o.root = f
        core.AAFObject.__init__(o)
        o.class_id = AUID(c)
        for name, fmt, rc in self.m.required_refs(c):
            if fmt == "key":
                o[name].value = MobID("urn:smpte:umid:" + bytes(self.r.randrange(1, 256) for _ in range(32)).hex()) if rc == MOBID_T \
                    else AUID(str(uuid.UUID(int=self.r.getrandbits(128))))
            elif fmt in (aafimg.VECTOR, aafimg.SET, aafimg.WVEC, aafimg.WSET):
                o[name].value = []
            elif fmt == aafimg.WEAK:
                o[name].value = self.definition(rc)
            elif fmt == aafimg.SINGLE:
                cs = [x for x in self.m.classes() if rc in self.m.a.lineage(x)]
                if depth:
                    n = dict((x, sum(f == aafimg.SINGLE for _, f, _ in self.m.required_refs(x))) for x in cs)
                    cs = [x for x in cs if n[x] == min(n.values())]
                k = self.r.choice(cs)
                s = self.bare(k, depth + 1)
                for p, (t, req) in self.m.data_props(k).items():
                    if req:
                        s[p].value = self.storable(t)
                o[name].value = s
            elif fmt == aafimg.STREAM:
                o[name].open("w").write(b"x")
        return o

    def storable(self, t):
        tt = self.m.term(t)
        for _ in range(50):
            v, m = self.v.make(tt, False)
            if self.v.ok(tt, m) and tt["k"] != "fixed":
                if tt["k"] in ("var", "strs", "set"):
                    v = type(v)() if not isinstance(v, tuple) else []
                return v
            if tt["k"] == "fixed":
                return [0] * tt["n"] if tt["e"]["k"] == "int" else []
        raise RuntimeError("no value")

    def definition(self, rc):
        d = self.f.dictionary
        if rc == TYPEDEF:
            return self.f.metadict.lookup_typedef("aafInt32")
        if rc == CLASSDEF:
            return self.f.metadict.lookup_classdef("FileDescriptor")
        for prop in ("DataDefinitions", "ContainerDefinitions", "CodecDefinitions", "InterpolationDefinitions", "ParameterDefinitions",
                     "OperationDefinitions", "PluginDefinitions", "TaggedValueDefinitions", "KLVDataDefinitions"):
            p = d.get(prop)
            if p is None or prop not in d:
                continue
            for x in p.value:
                c = str(x.classdef.auid)
                if rc in (self.m.a.lineage(c) or ()):
                    return x
        c = self.r.choice([k for k in self.m.classes() if rc in self.m.a.lineage(k)])
        o = self.bare(c, 2)
        o["Identification"].value = AUID(str(uuid.UUID(int=self.r.getrandbits(128))))
        for p, (t, req) in self.m.data_props(c).items():
            if req:
                o[p].value = self.storable(t)
        self.f.dictionary.get(self.OWNER[self.m.a.class_name(rc)]).append(o)
        return o

    # ---------------------------------------------------------------- events
    def rec(self, e, fn=None):
        r, v = outcome(fn) if fn else ("ok", None)
        e["r"] = r
        if r != "ok":
            e["exc"] = outcome.last[-600:]
        self.ev.append(e)
        return r == "ok"

    def new(self, c):
        x = "x%d" % len(self.x)
        o = self.bare(c)
        self.x[x] = (c, self.m.data_props(c))
        self.obj[x] = o
        self.rec({"o": "new", "x": x})
        for p, (t, req) in sorted(self.x[x][1].items()):
            if req:
                tt = self.m.term(t)
                for _ in range(20):
                    if self.put(x, p):
                        break
                else:
                    self.pending.append((x, p))
        return x

    def attach(self, x):
        if self.pending:
            raise RuntimeError("required values missing: %r" % self.pending)
        self.f.content["VfBox"].append(self.obj[x])
        self.order.append(x)

    def prop(self, x, p):
        """the property, now and then one the program got before it was added or removed"""
        h = self.handles.get((x, p))
        if h is not None and h.parent is self.obj[x] and self.r.random() < .5:
            return h
        h = self.obj[x][p]
        if self.r.random() < .2:
            self.handles[(x, p)] = h
        return h

    def put(self, x, p):
        t = self.m.term(self.x[x][1][p][0])
        v, m = self.v.make(t)
        prop = self.prop(x, p)
        ok = self.rec({"o": "put", "x": x, "p": p, "v": m}, lambda: setattr(prop, "value", v))
        if ok and self.r.random() < 0.5:
            spoil(v)
        return ok

    def step(self):
        r = self.r
        k = r.choices(["put", "raw", "none", "del", "look", "save", "reopen", "disk", "spoil"], [30, 6, 4, 3, 6, 1, 2, 1.5, 5])[0]
        if k == "look":
            return self.look()
        if k == "save":
            return self.rec({"o": "save"}, self.f.save)
        if k in ("reopen", "disk"):
            if len(self.order) < len(self.x):
                for x in self.x:
                    if x not in self.order:
                        self.attach(x)
            if not self.rec({"o": "reopen"}, self.f.close):
                self.dead = True
                return
            self.disk()
            self.f = aaf2.open(self.path, "rw", extensions=r.random() < 0.3)
            box = self.f.content["VfBox"].value
            self.obj = dict(zip(self.order, box))
            return self.look()
        x = r.choice(sorted(self.x))
        props = self.x[x][1]
        if not props:
            return
        p = r.choice(sorted(props))
        t = self.m.term(props[p][0])
        if k == "put":
            self.put(x, p)
        elif k == "raw":
            if t["k"] in ("ind", "other"):
                return
            b = self.v.raw(t)
            o = self.obj[x]

            def put_raw():
                q = o[p]
                q.data = bytes(b)
                q.add_pid_entry()
                q.mark_modified()
            self.rec({"o": "raw", "x": x, "p": p, "b": b}, put_raw)
        elif k == "none":
            if not props[p][1]:
                q = self.prop(x, p)

                def none():
                    q.value = None
                    if q.value is not None:
                        raise AssertionError("still has a value")
                self.rec({"o": "none", "x": x, "p": p}, none)
        elif k == "del":
            if not props[p][1]:
                self.rec({"o": "del", "x": x, "p": p}, lambda: self.obj[x].__delitem__(p))
        elif k == "spoil":
            try:
                if p in self.obj[x]:
                    spoil(self.obj[x][p].value)
            except Exception:
                pass

    def value(self, t, prop):
        if t["k"] == "ind":
            b = bytes(prop.data)
            i = auid(b[1:17])
            tt = self.m.term(i)
            return {"k": "ind", "id": ident(i), "ty": slim(tt), "v": canon(tt, prop.value)}
        return canon(t, prop.value)

    def look(self):
        e = {"o": "look", "obs": {}}

        def see():
            for x, o in self.obj.items():
                e["obs"][x] = {}
                keys = o.keys()
                for p, (t, req) in self.x[x][1].items():
                    if p in keys:
                        try:
                            e["obs"][x][p] = self.value(self.m.term(t), o[p])
                        except Exception as ex:
                            e["obs"][x][p] = {"k": "bad", "why": "%s %s" % (type(ex).__name__, ex)}
                    if (p in o) != (p in keys):
                        e["obs"][x][p] = {"k": "bad", "why": "in and keys() differ"}
        self.rec(e, see)

    def disk(self):
        a = aafimg.AafImage(self.path)
        e = {"o": "disk", "obs": {}}

        def see():
            if a.err:
                raise ValueError(a.err)
            hdr = a.index(a.root, 2)["kids"][0]
            cs = a.index(hdr, a.named(hdr.cls)["Content"])["kids"][0]
            kids = a.index(cs, a.named(cs.cls)["VfBox"])["kids"]
            for x, o in zip(self.order, kids):
                n = a.named(o.cls)
                e["obs"][x] = {}
                for p in self.x[x][1]:
                    if n[p] in o.props:
                        e["obs"][x][p] = list(o.props[n[p]][1])
        self.rec(e, see)

    def trace(self, label):
        types = {}
        cls = {}
        for x, (c, props) in self.x.items():
            cls[x] = dict((p, self.m.index(t)) for p, (t, _) in props.items())
        used = sorted(set(i for d in cls.values() for i in d.values()))
        at = dict((i, n) for n, i in enumerate(used))
        for x in cls:
            cls[x] = dict((p, at[i]) for p, i in cls[x].items())
        return {"init": {"types": [slim(self.m.terms[i]) for i in used], "cls": cls}, "ev": self.ev, "label": label}


def history(r, classes, steps, sector, label):
    run = ValRun(r, sector)
    try:
        for c in classes:
            x = run.new(c)
            if r.random() < 0.7 and not run.pending:
                run.attach(x)
        for _ in range(steps):
            run.step()
            if run.dead:
                break
        return run.trace(label)
    finally:
        run.close()


ZOO = zoo()[1][0]


def histories(c, n, steps, salt):
    m = base(4096)[1]
    cs = list(m.classes())
    base(512)

    def one(i):
        r = rng(salt, i)
        # every class in turn
        mine = [cs[(2 * i + j) % len(cs)] for j in range(2)] + [ZOO]
        return history(r, mine, steps, 512 if i % 2 else 4096, "%s %d" % (salt, i))
    c.extra["classes"] = len(cs)
    c.extra["properties"] = len(set((x, p) for x in cs for p in m.data_props(x)))
    return c.sharded(one, range(n))
