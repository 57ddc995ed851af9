"""Executes histories of declarations (spec/Meta.tla): programs register classes, properties and types in two files,
store objects of them and copy the objects from one file to the other."""
from common import *
import json, shutil, struct, tempfile, uuid
import aaf2
from aaf2 import core, types
from aaf2.auid import AUID
from aaf2.rational import AAFRational
import aafimg
from aafimg import auid, text
from drv_val import utf16list, INTERCHANGE, BOX, BOXREF, BOXVEC, BOOL, AUID_T, RATIONAL, STRING, T_RENAME, T_EXT, T_IND, T_OPAQUE, T_CHAR

DATADEF = "0d010101-0101-1b00-060e-2b3402060101"
CHAR = "01100100-0000-0000-060e-2b3401040101"
INT = dict(((n, s), "0101%02x00-0000-0000-060e-2b3401040101" % (i + 1 + 4 * s)) for s in (0, 1) for i, n in enumerate((1, 2, 4, 8)))
KIND = {"TypeDefInt": "int", "TypeDefStrongRef": "sref", "TypeDefWeakRef": "wref", "TypeDefEnum": "enum", "TypeDefFixedArray": "fixed",
        "TypeDefVarArray": "var", "TypeDefSet": "set", "TypeDefString": "str", "TypeDefStream": "stream", "TypeDefRecord": "rec",
        "TypeDefRename": "ren", "TypeDefExtEnum": "ext", "TypeDefIndirect": "ind", "TypeDefOpaque": "opq", "TypeDefCharacter": "chr",
        "TypeDefGenericCharacter": "gchr"}
CATEGORY = {"int": "ints", "sref": "strongrefs", "wref": "weakrefs", "enum": "enums", "fixed": "fixed_arrays", "var": "var_arrays", "set": "sets",
            "str": "strings", "rec": "records", "ren": "renames", "ext": "extenums"}
ROOTS = ("05022800-0000-0000-060e-2b3401040101", "05022700-0000-0000-060e-2b3401040101")


def word(*xs):
    return "|".join(str(x) for x in xs)


# ------------------------------------------------------------------ overlays
# the declarations of a file: c, t, p: id -> text of the definition; pid: property -> pid; e: enumeration -> names
def api_overlay(f, base):
    md = f.metadict
    o = {"c": {}, "t": {}, "p": {}, "pid": {}, "e": {}, "odd": []}
    for key, c in md["ClassDefinitions"].items():
        i = str(c.auid)
        if md.lookup_classdef(AUID(i)) is not c or str(key) != i or not c == md.lookup_classdef(AUID(i)) or c == c.parent:
            o["odd"].append("class %s" % i)
        if i not in base["c"]:
            o["c"][i] = word(c.class_name, c.parent_id, int(c.concrete))
        for p in c.propertydefs:
            q = str(p.auid)
            if q in base["p"]:
                continue
            o["p"][q] = word(i, p.property_name, p.typedef_id, int(p.optional), int(p.unique))
            o["pid"][q] = p.pid
            if c.get_propertydef_from_pid(p.pid) is not p:
                o["odd"].append("pid of %s" % q)
    for key, t in md["TypeDefinitions"].items():
        i = str(t.auid)
        if md.lookup_typedef(AUID(i)) is not t or str(key) != i:
            o["odd"].append("type %s" % i)
        if i not in base["t"]:
            o["t"][i] = api_type(t)
        if isinstance(t, (types.TypeDefEnum, types.TypeDefExtEnum)) and i != BOOL:
            o["e"][i] = sorted("%s=%s" % (n, v) for v, n in t.elements.items())
    return o


def api_type(t):
    k = KIND[t.__class__.__name__]
    w = [k, t.type_name]
    if k == "int":
        w += [t.size, int(t.signed)]
    elif k in ("sref", "wref"):
        w += [t.property_entries[0x11 if k == "sref" else 0x12].ref]
        if k == "wref":
            w += [x for x in t.target_set_path]
    elif k == "gchr":
        w += [t.size]
    elif k == "rec":
        names, members = t.member_names, t["MemberTypes"].references
        w += ["%s:%s" % (n, m) for n, m in zip(names, members)]
        if len(names) != len(members):
            w += ["?"]
    elif k == "ren":
        w += [t.property_entries[0x1E].ref]
    elif k in ("enum", "fixed", "var", "set", "str"):
        w += [t.property_entries[{"enum": 0x14, "fixed": 0x17, "var": 0x19, "set": 0x1A, "str": 0x1B}[k]].ref]
        if k == "fixed":
            w += [t.size]
    return word(*w)


def disk_overlay(a, base):
    """the same, from the bytes on disk"""
    o = {"c": {}, "t": {}, "p": {}, "pid": {}, "e": {}, "odd": []}
    for key, c in zip(a.index(a.meta, 3)["keys"], a.index(a.meta, 3)["kids"]):
        i = auid(c.props[5][1])
        if auid(bytes.fromhex(key)) != i:
            o["odd"].append("class %s" % i)
        if i not in base["c"]:
            o["c"][i] = word(text(c.props[6][1]), a.classes[i][1], c.props[0xA][1][0])
        if 9 not in c.props:
            continue
        seen = set()
        for p in a.index(c, 9)["kids"]:
            q = auid(p.props[5][1])
            pid = struct.unpack("<H", p.props[0xD][1])[0]
            if q in seen or pid in seen:
                o["odd"].append("property %s twice" % q)
            seen |= {q, pid}
            if q in base["p"]:
                continue
            o["p"][q] = word(i, text(p.props[6][1]), auid(p.props[0xB][1]), p.props[0xC][1][0], p.props.get(0xE, (0, b"\0"))[1][0])
            o["pid"][q] = pid
    for key, t in zip(a.index(a.meta, 4)["keys"], a.index(a.meta, 4)["kids"]):
        i = auid(t.props[5][1])
        if auid(bytes.fromhex(key)) != i:
            o["odd"].append("type %s" % i)
        if i not in base["t"]:
            o["t"][i] = disk_type(a, t)
        if t.cls == aafimg.T_ENUM and i != BOOL:
            b = t.props[0x16][1]
            o["e"][i] = sorted("%s=%s" % x for x in zip(utf16list(t.props[0x15][1]), struct.unpack("<%dq" % (len(b) // 8), b)))
        if t.cls == T_EXT:
            b = t.props[0x20][1]
            o["e"][i] = sorted("%s=%s" % x for x in zip(utf16list(t.props[0x1F][1]), [auid(b[k:k + 16]) for k in range(0, len(b), 16)]))
    return o


DISK_KIND = {aafimg.T_INT: "int", aafimg.T_STRONG: "sref", aafimg.T_WEAK: "wref", aafimg.T_ENUM: "enum", aafimg.T_FIXED: "fixed", aafimg.T_VAR: "var",
             aafimg.T_SET: "set", aafimg.T_STRING: "str", aafimg.T_STREAM: "stream", aafimg.T_RECORD: "rec", T_RENAME: "ren", T_EXT: "ext",
             T_IND: "ind", T_OPAQUE: "opq", T_CHAR: "chr", "0e040101-0000-0000-060e-2b3402060101": "gchr"}


def disk_type(a, t):
    k = DISK_KIND[t.cls]
    w = [k, text(t.props[6][1])]
    ref = lambda pid: auid(bytes.fromhex(a.index(t, pid)["keys"][0]))
    if k == "int":
        w += [t.props[0xF][1][0], t.props[0x10][1][0]]
    elif k in ("sref", "wref"):
        w += [ref(0x11 if k == "sref" else 0x12)]
        if k == "wref":
            b = t.props[0x13][1]
            w += [auid(b[n:n + 16]) for n in range(0, len(b), 16)]
    elif k == "gchr":
        w += [t.props[p][1][0] for p in t.props if p >= 0x8000]
    elif k == "rec":
        w += ["%s:%s" % (n, auid(bytes.fromhex(h))) for n, h in zip(utf16list(t.props[0x1D][1]), a.index(t, 0x1C)["keys"])]
    elif k == "ren":
        w += [ref(0x1E)]
    elif k in ("enum", "fixed", "var", "set", "str"):
        w += [ref({"enum": 0x14, "fixed": 0x17, "var": 0x19, "set": 0x1A, "str": 0x1B}[k])]
        if k == "fixed":
            w += [struct.unpack("<I", t.props[0x18][1])[0]]
    return word(*w)


NOTHING = {"c": {}, "t": {}, "p": {}}
_B = {}


def base(ext):
    """(bytes of a file with the box, what it declares, the reader's view)"""
    if ext not in _B:
        d = tempfile.mkdtemp(prefix="vf_meta_")
        p = os.path.join(d, "t.aaf")
        with aaf2.open(p, "w", extensions=ext) as f:
            md = f.metadict
            md.register_typedef_model({"strongrefs": {"VfRef": (BOXREF, INTERCHANGE)}, "var_arrays": {"VfVec": (BOXVEC, BOXREF)}})
            md.lookup_classdef("ContentStorage").register_propertydef("VfBox", BOX, None, "VfVec", True)
        with open(p, "rb") as g:
            a = aafimg.AafImage(p)
            _B[ext] = (g.read(), disk_overlay(a, NOTHING), a)
        shutil.rmtree(d)
    return _B[ext]


LACKS = {"classes": ("MPEGAudioDescriptor", "JPEG2000SubDescriptor", "TypeDefinitionGenericCharacter"), "types": ("aafChar",)}


def foreign(r):
    """a file of another program: its model lacks some classes and types, and the box has a pid the library gives to one of their properties"""
    d = tempfile.mkdtemp(prefix="vf_meta_")
    p = os.path.join(d, "t.aaf")
    with aaf2.open(p, "w", extensions=False) as f:
        md = f.metadict
        gone = []
        cs, ts = [md.lookup_classdef(c) for c in LACKS["classes"]], [md.lookup_typedef(t) for t in LACKS["types"]]
        if r.random() < 0.3:
            cs, ts = cs[:-1], []
        for c in cs:
            gone += [q.pid for q in c.propertydefs if q.pid >= 0x8000]
        for t in ts:
            md["TypeDefinitions"].pop(t.auid)
        for c in cs:
            md["ClassDefinitions"].pop(c.auid)
        md.local_pids -= set(gone)
        md.register_typedef_model({"strongrefs": {"VfRef": (BOXREF, INTERCHANGE)}, "var_arrays": {"VfVec": (BOXVEC, BOXREF)}})
        md.lookup_classdef("ContentStorage").register_propertydef("VfBox", BOX, r.choice(gone), "VfVec", True)
    with open(p, "rb") as g:
        b = g.read()
    shutil.rmtree(d)
    return b


# ------------------------------------------------------------------ universe
class Universe(object):
    """definitions made up for one history, and the extension model"""

    def __init__(self, r, size):
        self.r = r
        b = base(False)[1]
        # properties of the model whose pid the library gives are tracked
        self.std = dict((q, d) for q, d in b["p"].items() if b["pid"][q] >= 0x8000)
        self.base = dict(b, p=dict((q, d) for q, d in b["p"].items() if q not in self.std))
        self.img = base(False)[2]
        full = base(True)[1]
        self.cls, self.prop, self.typ = {}, {}, {}
        # enumerations every file has
        self.t0 = {}
        for t, ns in self.base["e"].items():
            self.t0[t] = {"refs": [], "crefs": [], "els": ns, "d": ""}
        self.ext = {"c": sorted(set(full["c"]) - set(self.base["c"])), "t": sorted(set(full["t"]) - set(self.base["t"])),
                    "p": sorted(set(full["p"]) - set(b["p"])), "e": dict((t, ns) for t, ns in full["e"].items())}
        self.full = full
        self.ids = iter(range(1, 10000))
        self.salt = r.getrandbits(32)
        self.names = ["Vf%s" % x for x in "ABCDEFGH"]
        cn = r.randint(2, 4)
        cids = [self.new() for _ in range(cn)]
        for k, c in enumerate(cids):
            parent = r.choice([INTERCHANGE] + cids[:k])
            self.cls[c] = {"name": "VfClass%d" % (r.choice([0, k]) if r.random() < 0.3 else k), "parent": parent, "concrete": 1, "mine": 1}
        self.elems = [INT[r.choice([1, 2, 4, 8]), r.choice([0, 1])], AUID_T, RATIONAL, BOOL]
        for k in range(size):
            self.add_type(cids, k, r.choice(["enum", "ext"]) if k == 0 else None)
        pids = [r.randint(0x8000, 0xFFFF) for _ in range(2)] + [0xFFFF, 0xFFF0, 0xFFE0]
        for k in range(r.randint(3, 8)):
            c = r.choice(cids + [INTERCHANGE])
            t = r.choice([x for x in self.typ if self.typ[x]["use"]] + self.elems[:2] + [STRING])
            pid = r.choice([0, 0, 0, r.choice(pids), 0x6000 + k])
            if k == 0:
                c, t = cids[0], sorted(self.typ)[0]
            self.prop[self.new()] = {"cls": c, "name": "VfP%d" % k, "t": t, "pid": pid, "opt": 1, "uniq": int(r.random() < .25), "mine": 1}

    def new(self):
        return str(uuid.UUID(int=(self.salt << 96) + (0x30 << 80) + (1 << 63) + next(self.ids)))

    def add_type(self, cids, k, kind=None):
        r = self.r
        mine = [t for t in self.typ if self.typ[t]["plain"]]
        el = lambda: r.choice(mine + self.elems) if mine and r.random() < 0.7 else r.choice(self.elems)
        sref = [t for t in self.typ if self.typ[t]["k"] == "sref"]
        wref = [t for t in self.typ if self.typ[t]["k"] == "wref"]
        kind = kind or r.choice(["int", "enum", "enum", "ext", "ext", "rec", "rec", "fixed", "var", "var", "set", "ren", "str", "sref", "sref", "sref", "wref"])
        i = self.new()
        d = {"k": kind, "name": "Vf%s%d" % (kind, r.choice([0, k]) if kind not in ("enum", "ext") else k), "plain": True, "use": True, "refs": [], "crefs": [], "els": []}
        if kind == "int":
            d["args"] = (r.choice([1, 2, 4, 8]), r.random() < 0.5)
            d["w"] = [d["args"][0], int(d["args"][1])]
        elif kind == "enum":
            e = INT[r.choice([1, 2, 4]), 1]
            d["vals"] = dict((v, "VfE%d_%d" % (k, n)) for n, v in enumerate(r.sample(range(-60, 60), r.randint(1, 5))))
            own = dict(list(d["vals"].items())[:r.randint(1, len(d["vals"]))])
            d["args"], d["w"], d["els"] = (e, own), [e], sorted("%s=%s" % (n, v) for v, n in own.items())
            d["e"] = e
        elif kind == "ext":
            d["vals"] = dict((self.new(), "VfX%d_%d" % (k, n)) for n in range(r.randint(1, 5)))
            own = dict(list(d["vals"].items())[:r.randint(1, len(d["vals"]))])
            d["args"], d["w"], d["els"] = (own,), [], sorted("%s=%s" % (n, v) for v, n in own.items())
        elif kind == "rec":
            d["f"] = [("m%d" % n, el()) for n in range(r.randint(1, 3))]
            d["args"], d["w"] = (tuple(d["f"]),), ["%s:%s" % x for x in d["f"]]
            d["refs"] = [x for _, x in d["f"]]
        elif kind == "fixed":
            d["e"], d["n"] = el(), r.randint(1, 3)
            d["args"], d["w"], d["refs"] = (d["e"], d["n"]), [d["e"], d["n"]], [d["e"]]
        elif kind in ("var", "set", "ren"):
            d["e"] = el() if kind != "set" else r.choice([INT[2, 1], AUID_T] + [t for t in mine if self.typ[t]["k"] in ("int", "enum", "ext", "ren")])
            if kind == "var" and r.random() < 0.5 and sref + wref:
                d["e"] = r.choice(sref + wref)
            d["args"], d["w"], d["refs"] = (d["e"],), [d["e"]], [d["e"]]
            if kind != "ren":
                d["plain"] = False
            if kind == "ren" and self.typ.get(d["e"], {}).get("k") == "str":
                d["plain"] = False
        elif kind == "str":
            d["e"], d["plain"] = CHAR, False
            d["args"], d["w"] = (CHAR,), [CHAR]
        elif kind == "sref":
            d["c"] = r.choice(cids)
            d["args"], d["w"], d["crefs"], d["plain"] = (d["c"],), [d["c"]], [d["c"]], False
        elif kind == "wref":
            path = [auid_ for auid_ in self.dd_path()]
            d["c"] = DATADEF
            d["args"], d["w"], d["crefs"], d["plain"] = (DATADEF, path), [DATADEF] + path, [DATADEF], False
        if kind == "fixed":
            d["plain"] = True
        self.typ[i] = d

    def dd_path(self):
        a = self.img
        t = [x for x in a.types.values() if text(x.props[6][1]) == "DataDefinitionWeakReference"][0]
        b = t.props[0x13][1]
        return [auid(b[n:n + 16]) for n in range(0, len(b), 16)]

    def word_t(self, t):
        d = self.typ[t]
        return word(d["k"], d["name"], *d["w"])

    def line(self, c):
        if c in self.cls:
            return [c] + self.line(self.cls[c]["parent"])
        return self.img.lineage(c)

    def json(self, with_ext):
        u = {"cls": {}, "line": {}, "prop": {}, "typ": {}}
        for c, d in self.cls.items():
            u["cls"][c] = {"d": word(d["name"], d["parent"], d["concrete"])}
            u["line"][c] = self.line(c)
        for c in (INTERCHANGE, DATADEF):
            u["line"][c] = self.line(c)
        t = lambda x: x if x in self.typ or x in u["typ"] or x in self.t0 else "builtin"
        for i, d in self.t0.items():
            u["typ"][i] = d
        for i, d in self.typ.items():
            u["typ"][i] = {"refs": [x for x in d["refs"] if t(x) != "builtin"], "crefs": d["crefs"], "els": d["els"], "d": self.word_t(i)}
        for i, d in self.prop.items():
            u["prop"][i] = {"cls": d["cls"], "typ": t(d["t"]), "pid": d["pid"], "d": word(d["cls"], d["name"], d["t"], d["opt"], d["uniq"])}
        for i, w in self.std.items():
            u["prop"][i] = {"cls": w.split("|")[0], "typ": "builtin", "pid": 0, "d": w}
            u["line"][w.split("|")[0]] = self.line(w.split("|")[0])
        u["std"] = sorted(self.std)
        u["ext"] = {"c": [], "t": [], "p": [], "e": {}}
        if with_ext:
            u["ext"] = self.ext
            for c in self.ext["c"]:
                u["cls"][c] = {"d": self.full["c"][c]}
                u["line"][c] = base(True)[2].lineage(c)
            for i in self.ext["t"]:
                u["typ"][i] = {"refs": [], "crefs": [], "els": self.full["e"].get(i, []), "d": self.full["t"][i]}
            for i in self.ext["p"]:
                w = self.full["p"][i].split("|")
                u["prop"][i] = {"cls": w[0], "typ": w[2] if w[2] in u["typ"] else "builtin", "pid": 0, "d": self.full["p"][i]}
                if w[0] not in u["line"]:
                    u["line"][w[0]] = base(True)[2].lineage(w[0])
        return u


# -------------------------------------------------------------------- values
def token(v):
    if isinstance(v, bool) or isinstance(v, (int, str)):
        return repr(v)
    if isinstance(v, (AUID, uuid.UUID)):
        return str(v)
    if isinstance(v, AAFRational):
        return "%d/%d" % (v.numerator, v.denominator)
    if isinstance(v, (list, tuple)):
        return "[%s]" % ",".join(token(x) for x in v)
    if isinstance(v, (set, frozenset)):
        return "{%s}" % ",".join(sorted(token(x) for x in v))
    if isinstance(v, dict):
        return "<%s>" % ",".join("%s:%s" % (k, token(x)) for k, x in sorted(v.items()))
    return "? " + repr(v)[:100]


class Run(object):
    def __init__(self, r, ext):
        self.r = r
        self.u = Universe(r, r.randint(3, 12))
        self.ext = ext
        self.dir = tempfile.mkdtemp(prefix="vf_meta_")
        self.path, self.f = {}, {}
        self.st = {}
        self.ev = []
        self.obj, self.cls_of, self.box, self.vals = {}, {}, {}, {}
        self.n = 0
        self.dead = False
        for x in "AB":
            self.path[x] = os.path.join(self.dir, x + ".aaf")
            with open(self.path[x], "wb") as g:
                g.write(foreign(r) if r.random() < 0.2 else base(False)[0])
            self.f[x] = aaf2.open(self.path[x], "rw", extensions=False)
            self.f[x].content["VfBox"].value = []
            self.obj[x], self.box[x], self.vals[x] = {}, [], {}
            self.st[x] = self.overlay(x)
            self.ev.append({"o": "look", "f": x, "obs": {}, "r": "ok", "st": self.slim(self.st[x])})
        self.init = {"u": self.u.json(ext), "f": dict((x, self.slim(self.st[x])) for x in "AB")}

    def close(self):
        for f in self.f.values():
            outcome(f.close)
        shutil.rmtree(self.dir, ignore_errors=True)

    def overlay(self, x):
        return api_overlay(self.f[x], self.u.base)

    def slim(self, o):
        return {"c": o["c"], "t": o["t"], "p": o["p"], "pid": o["pid"], "e": o["e"], "odd": o["odd"]}

    def has(self, x, t):
        return t not in self.u.typ or t in self.st[x]["t"]

    def has_c(self, x, c):
        return c not in self.u.cls or c in self.st[x]["c"]

    # ---------------------------------------------------------------- events
    def rec(self, e, fn):
        r, v = outcome(fn)
        e["r"] = r
        if r != "ok":
            e["exc"] = outcome.last[-800:]
        if "f" in e and e["o"] not in ("new", "set"):
            r2, o = outcome(lambda: self.overlay(e["f"]))
            if r2 != "ok":
                e["r"], e["exc"], o = "err", outcome.last[-800:], self.st[e["f"]]
                self.dead = True
            self.st[e["f"]] = o
            e["st"] = self.slim(o)
        self.ev.append(e)
        return r == "ok"

    def model(self, t):
        d = self.u.typ[t]
        return {CATEGORY[d["k"]]: {d["name"]: (t,) + d["args"]}}

    def regt(self, x, t):
        d = self.u.typ[t]
        e = {"o": "regt", "f": x, "t": t}
        m = self.model(t)
        if t in self.st[x]["t"] and d["k"] not in ("enum", "ext") and self.r.random() < 0.7:
            # a file keeps the definition it has
            m = {"ints": {self.r.choice([d["name"], "VfOther"]): (t, 1, False)}} if self.r.random() < 0.5 else {"renames": {d["name"]: (t, AUID_T)}}
        return self.rec(e, lambda: self.f[x].metadict.register_typedef_model(m))

    def regc(self, x, c, ps):
        d = self.u.cls[c]
        md = self.f[x].metadict
        arg = dict((self.u.prop[p]["name"], (p, self.u.prop[p]["pid"] or None, self.u.prop[p]["t"], bool(self.u.prop[p]["opt"]), bool(self.u.prop[p]["uniq"]))) for p in ps)
        return self.rec({"o": "regc", "f": x, "c": c, "ps": ps}, lambda: md.register_classdef(d["name"], c, d["parent"], bool(d["concrete"]), arg or None))

    def regp(self, x, p):
        d = self.u.prop[p]
        md = self.f[x].metadict
        return self.rec({"o": "regp", "f": x, "p": p}, lambda: md.lookup_classdef(AUID(d["cls"])).register_propertydef(
            d["name"], p, d["pid"] or None, d["t"], bool(d["opt"]), bool(d["uniq"])))

    def taken(self, x, p):
        pid = self.u.prop[p]["pid"]
        return pid >= 0x8000 and p not in self.st[x]["pid"] and pid in self.st[x]["pid"].values()

    def name_taken(self, x, t):
        n = self.u.typ[t]["name"]
        return any(w.split("|")[1] == n and i != t for i, w in self.st[x]["t"].items())

    # --------------------------------------------------------------- objects
    def usable(self, x, c):
        """properties an object of class c in x can be given"""
        l = set(self.u.line(c))
        return [p for p in sorted(self.st[x]["pid"]) if p in self.u.prop and self.u.prop[p]["cls"] in l]

    def bare(self, x, c):
        o = core.AAFObject.__new__(core.AAFObject)
        o.root = self.f[x]
        core.AAFObject.__init__(o)
        o.class_id = AUID(c)
        return o

    def plain(self, x, t):
        """a value of a type: what the program passes"""
        r = self.r
        if t in self.u.typ:
            d = self.u.typ[t]
            k = d["k"]
            if k == "int":
                n = 8 * d["args"][0]
                return r.choice([0, 1, -(1 << (n - 1)), (1 << (n - 1)) - 1]) if d["args"][1] else r.choice([0, 1, (1 << n) - 1])
            if k in ("enum", "ext"):
                return r.choice(self.st[x]["e"][t]).split("=")[0]
            if k == "rec":
                return dict((n, self.plain(x, m)) for n, m in d["f"])
            if k == "fixed":
                return [self.plain(x, d["e"]) for _ in range(d["n"])]
            if k == "var":
                return [self.plain(x, d["e"]) for _ in range(r.choice([0, 1, 2, 3]))]
            if k == "set":
                return set(self.plain(x, d["e"]) for _ in range(r.choice([0, 1, 2, 3])))
            if k == "ren":
                return self.plain(x, d["e"])
            if k == "str":
                return r.choice(["", "a", "v\u00e4"])
        if t == STRING:
            return r.choice(["", "text", "\U0001f600"])
        if t == AUID_T:
            return AUID(self.u.new())
        if t == RATIONAL:
            return AAFRational(r.randint(-5, 5), r.randint(1, 7))
        if t == BOOL:
            return r.random() < 0.5
        for (n, s), i in INT.items():
            if i == t:
                return r.choice([0, 1, (1 << (8 * n - 1)) - 1] + ([-1] if s else []))
        raise RuntimeError(t)

    def shape(self, t):
        d = self.u.typ.get(t)
        if d is None:
            return "v"
        if d["k"] in ("sref", "wref"):
            return d["k"]
        if d["k"] == "var" and self.u.typ.get(d["e"], {}).get("k") in ("sref", "wref"):
            return self.u.typ[d["e"]]["k"] + "s"
        return "v"

    def fill(self, x, o, c, depth, only=None):
        """gives the object a value (only: of that property, recorded by the caller); -> its vals"""
        r = self.r
        vals = {}
        for p in ([only] if only else self.usable(x, c)):
            if not only and r.random() < 0.4:
                continue
            d = self.u.prop[p]
            s = self.shape(d["t"])
            if s in ("sref", "srefs"):
                t = d["t"] if s == "sref" else self.u.typ[d["t"]]["e"]
                rc = self.u.typ[t]["c"]
                ks = [k for k in self.u.cls if rc in self.u.line(k) and self.has_c(x, k)]
                if depth > 2 or not ks:
                    continue
                kids = []
                for _ in range(1 if s == "sref" else r.choice([1, 2])):
                    k = r.choice(ks)
                    ko = self.bare(x, k)
                    kids.append((ko, {"cls": k, "vals": self.fill(x, ko, k, depth + 1)}))
                o[d["name"]].value = kids[0][0] if s == "sref" else [k for k, _ in kids]
                vals[p] = {"k": "os", "s": [m for _, m in kids]}
            elif s in ("wref", "wrefs"):
                ds = r.sample(list(self.f[x].dictionary["DataDefinitions"].value), r.choice([1, 2]))
                o[d["name"]].value = ds[0] if s == "wref" else ds
                vals[p] = {"k": "v", "n": token([y.auid for y in (ds[:1] if s == "wref" else ds)])}
            else:
                v = self.plain(x, d["t"])
                o[d["name"]].value = v
                vals[p] = {"k": "v", "n": token(v)}
        return vals

    def seen(self, x, o):
        """an object as the API shows it, by property id"""
        out = {"cls": str(o.class_id), "vals": {}}
        for q in o.properties():
            p = str(q.propertydef.auid)
            if p not in self.u.prop:
                out["vals"][p] = {"k": "v", "n": "not a property of the history"}
                continue
            s = self.shape(self.u.prop[p]["t"])
            v = q.value
            if s == "sref":
                out["vals"][p] = {"k": "os", "s": [self.seen(x, v)]}
            elif s == "srefs":
                out["vals"][p] = {"k": "os", "s": [self.seen(x, k) for k in v]}
            elif s == "wref":
                out["vals"][p] = {"k": "v", "n": token([v.auid])}
            elif s == "wrefs":
                out["vals"][p] = {"k": "v", "n": token([y.auid for y in v])}
            else:
                out["vals"][p] = {"k": "v", "n": token(v)}
            if o[q.name].propertydef.auid != q.propertydef.auid:
                out["vals"][p] = {"k": "v", "n": "another property has its name"}
        return out

    def raw(self, a, o):
        out = {"cls": o.cls, "vals": []}
        for pid in o.order:
            d = a.propdef(o.cls, pid)
            out["vals"].append("pid %x" % pid if d is None else auid(d.props[5][1]))
        kids = []
        for pid in o.order:
            if o.props[pid][0] in (aafimg.SINGLE, aafimg.VECTOR):
                d = a.propdef(o.cls, pid)
                if d is not None:
                    kids.append([auid(d.props[5][1]), [self.raw(a, k) for k in a.index(o, pid)["kids"]]])
        out["kids"] = kids
        return out

    # ----------------------------------------------------------------- steps
    def meet(self):
        """both files declare the same class and enumeration, each adds names of its own"""
        u, r = self.u, self.r
        t, c, p = sorted(u.typ)[0], sorted(u.cls)[0], sorted(u.prop)[0]
        for x in "AB":
            if t not in self.st[x]["t"]:
                self.regt(x, t)
            if c not in self.st[x]["c"]:
                self.regc(x, c, [])
            if p not in self.st[x]["p"] and not self.taken(x, p):
                self.regp(x, p)
            for _ in range(r.randint(0, 4)):
                self.step("rege", x, t)
        x = r.choice("AB")
        if p in self.st[x]["p"]:
            self.step("new", x, c)
            self.step("set", x, p)
            self.step("copy", "B" if x == "A" else "A")

    def step(self, k=None, x=None, what=None):
        r, u = self.r, self.u
        x = x or r.choice("AB")
        k = k or r.choices(["regt", "regc", "regp", "rege", "ext", "new", "set", "copy", "open", "look"], [14, 7, 10, 8, 0.7 if self.ext else 0, 7, 6, 7, 2, 3])[0]
        st = self.st[x]
        if k == "regt":
            c = [t for t, d in u.typ.items() if all(self.has(x, y) for y in d["refs"]) and all(self.has_c(x, y) for y in d["crefs"])]
            c = [t for t in c if not (u.typ[t]["k"] in ("enum", "ext") and self.name_taken(x, t))]
            new = [t for t in c if t not in st["t"]]
            if c:
                self.regt(x, r.choice(new if new and r.random() < 0.85 else c))
        elif k == "regc":
            c = [i for i, d in u.cls.items() if self.has_c(x, d["parent"])]
            new = [i for i in c if i not in st["c"]]
            if c:
                i = r.choice(new if new and r.random() < 0.8 else c)
                ps = [p for p, d in u.prop.items() if d["cls"] == i and self.has(x, d["t"]) and r.random() < 0.6 and not self.taken(x, p)]
                if len(set(u.prop[p]["pid"] for p in ps)) < len(ps):
                    ps = ps[:1]
                self.regc(x, i, ps)
        elif k == "regp":
            ps = [p for p, d in u.prop.items() if self.has_c(x, d["cls"]) and self.has(x, d["t"])]
            new = [p for p in ps if p not in st["p"]]
            if ps:
                self.regp(x, r.choice(new if new and r.random() < 0.85 else ps))
        elif k == "rege":
            ts = [t for t, d in u.typ.items() if d["k"] in ("enum", "ext") and t in st["t"]]
            if ts:
                t = what or r.choice(ts)
                v, n = r.choice(sorted(u.typ[t]["vals"].items(), key=str))
                td = self.f[x].metadict.lookup_typedef(AUID(t))
                self.rec({"o": "rege", "f": x, "t": t, "els": ["%s=%s" % (n, v)]}, lambda: td.register_element(n, AUID(v) if isinstance(v, str) else v))
        elif k == "ext":
            self.rec({"o": "ext", "f": x}, self.f[x].metadict.register_extensions)
        elif k == "new":
            cs = [c for c in u.cls if c in st["c"]]
            if cs:
                c = what or r.choice(cs)
                n = "o%d" % self.n
                self.n += 1
                o = self.bare(x, c)
                if self.rec({"o": "new", "f": x, "x": n, "c": c}, lambda: self.f[x].content["VfBox"].append(o)):
                    self.obj[x][n], self.cls_of[n] = o, c
                    self.box[x].append(n)
        elif k == "set":
            if self.obj[x]:
                n = r.choice(sorted(self.obj[x]))
                # the identifier of an object in a file can not be changed
                ps = [p for p in self.usable(x, self.cls_of[n]) if not self.u.prop[p]["uniq"]]
                if ps:
                    p = what if what in ps else r.choice(ps)
                    e = {"o": "set", "f": x, "x": n, "p": p, "v": {"k": "v", "n": "?"}}
                    got = {}
                    if self.rec(e, lambda: got.update(self.fill(x, self.obj[x][n], self.cls_of[n], 0, p))) and p in got:
                        e["v"] = got[p]
                        self.vals[x].setdefault(n, set()).add(p)
                    elif e["r"] == "ok":
                        self.ev.pop()
        elif k == "copy":
            g = "B" if x == "A" else "A"
            if self.obj[g]:
                n = r.choice(sorted(self.obj[g], key=lambda y: (len(self.vals[g].get(y, ())), y))[-3:])
                m = "o%d" % self.n
                self.n += 1

                def copy():
                    o = self.obj[g][n].copy(root=self.f[x])
                    self.f[x].content["VfBox"].append(o)
                    self.obj[x][m], self.cls_of[m] = o, self.cls_of[n]
                    self.box[x].append(m)
                    self.vals[x][m] = set(self.vals[g].get(n, ()))
                if not self.rec({"o": "copy", "f": x, "from": g, "x": n, "y": m}, copy):
                    self.dead = True
        elif k == "open":
            self.reopen(x)
        elif k == "look":
            self.look(x)

    def look(self, x):
        e = {"o": "look", "f": x, "obs": {}}

        def see():
            for n, o in self.obj[x].items():
                try:
                    e["obs"][n] = self.seen(x, o)
                except Exception as ex:
                    e["obs"][n] = {"cls": "%s %s" % (type(ex).__name__, ex), "vals": {}}
        self.rec(e, see)

    def reopen(self, x):
        ev = {"o": "disk", "f": x}
        r, _ = outcome(self.f[x].close)
        if r != "ok":
            ev.update({"r": "err", "exc": outcome.last[-800:], "obs": {}, "st": self.slim(self.st[x])})
            self.ev.append(ev)
            self.dead = True
            return
        a = aafimg.AafImage(self.path[x])
        ev["obs"] = {}

        def see():
            if a.err:
                raise ValueError(a.err)
            ev["st"] = disk_overlay(a, self.u.base)
            hdr = a.index(a.root, 2)["kids"][0]
            cs = a.index(hdr, a.named(hdr.cls)["Content"])["kids"][0]
            kids = a.index(cs, a.named(cs.cls)["VfBox"])["kids"]
            for n, o in zip(self.box[x], kids):
                ev["obs"][n] = self.raw(a, o)
        r, _ = outcome(see)
        ev["r"] = r
        if r != "ok":
            ev["exc"] = outcome.last[-800:]
            ev.setdefault("st", self.slim(self.st[x]))
        self.ev.append(ev)
        ext = self.ext and self.r.random() < 0.3

        def again():
            self.f[x] = aaf2.open(self.path[x], "rw", extensions=ext)
            self.obj[x] = dict(zip(self.box[x], self.f[x].content["VfBox"].value))
        if not self.rec({"o": "ext" if ext else "open", "f": x}, again):
            self.dead = True
            return
        self.look(x)

    def trace(self, label):
        return {"init": self.init, "ev": self.ev, "label": label}


def history(r, ext, steps, label):
    run = Run(r, ext)
    try:
        if r.random() < 0.4:
            run.meet()
        for _ in range(steps):
            run.step()
            if run.dead:
                break
        else:
            for x in "AB":
                if not run.dead:
                    run.look(x)
                if not run.dead:
                    run.reopen(x)
        return run.trace(label)
    finally:
        run.close()


def histories(c, n, steps, salt):
    base(False), base(True)
    return c.sharded(lambda i: history(rng(salt, i), i % 4 == 0, steps, "%s %d" % (salt, i)), range(n))


# ------------------------------------------------------------ built-in model
def standard():
    """the built-in model and its extension, as texts: what any file declares"""
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "model.json")) as g:
        return json.load(g)


def make_standard():
    out = {}
    for k, ext in (("base", False), ("ext", True)):
        o = base(ext)[1]
        for x in (BOX, BOXREF, BOXVEC):
            for y in ("t", "p", "pid"):
                o[y].pop(x, None)
        out[k] = dict((x, o[x]) for x in "ctpe")
        out[k]["pid"] = dict((p, n if n < 0x8000 else 0) for p, n in o["pid"].items())
    return out


def std_files(c, salt):
    r = rng(salt)
    std = standard()
    out = []
    for i in range(8):
        ext, kind = bool(i % 2), ("new", "saved", "foreign", "opened")[i // 2]
        d = tempfile.mkdtemp(prefix="vf_meta_")
        p = os.path.join(d, "t.aaf")
        ev = []

        def see(f=None):
            o = api_overlay(f, NOTHING) if f else disk_overlay(aafimg.AafImage(p), NOTHING)
            o["o"] = "api" if f else "disk"
            ev.append(o)
        try:
            if kind in ("new", "saved"):
                with aaf2.open(p, "w", extensions=ext, sector_size=r.choice([512, 4096])) as f:
                    see(f)
                if kind == "saved":
                    with aaf2.open(p, "r") as f:
                        see(f)
            else:
                with open(p, "wb") as g:
                    g.write(foreign(r) if kind == "foreign" else base(False)[0])
                with aaf2.open(p, "rw", extensions=ext) as f:
                    see(f)
            see()
        finally:
            shutil.rmtree(d)
        out.append({"init": {"m": std["ext" if ext else "base"]}, "ev": ev, "label": "%s file, %s extensions" % (kind, "with" if ext else "no")})
    return out
