"""Driver of the object graph: executes operations of spec/Objects.tla on open AAF files and
records outcomes and observed graphs. It keeps a shadow copy of the graph only to choose
sensible operands and to find objects again; the oracle is the specification."""
import binascii, contextlib, gc, io, os, shutil, tempfile, uuid
from common import *
import aaf2
import aafimg
from aaf2.auid import AUID
from aaf2.mobid import MobID

MOBS = ("cmob", "mmob", "smob")
SEGS = ("seq", "fill", "sel", "nest", "opg", "clip", "egrp")
COMPS = SEGS + ("trans",)
DEFS = ("opdef", "pardef", "datdef")
FACTORY = {"cmob": "CompositionMob", "mmob": "MasterMob", "smob": "SourceMob", "slot": "TimelineMobSlot",
           "seq": "Sequence", "fill": "Filler", "sel": "Selector", "nest": "NestedScope", "opg": "OperationGroup",
           "clip": "SourceClip", "egrp": "EssenceGroup", "trans": "Transition", "tag": "TaggedValue",
           "param": "ConstantValue", "ess": "EssenceData", "desc": "TapeDescriptor", "loc": "NetworkLocator",
           "opdef": "OperationDef", "pardef": "ParameterDef", "datdef": "DataDef"}
CLASS_IDS = {}


def strong(c):
    r = {}
    if c == "cs":
        r = {"Mobs": ("set", MOBS), "EssenceData": ("set", ("ess",)), "VfMobs": ("set", ("cmob",))}
    elif c == "dict":
        r = {"OperationDefinitions": ("set", ("opdef",)), "ParameterDefinitions": ("set", ("pardef",)),
             "DataDefinitions": ("set", ("datdef",))}
    elif c in MOBS:
        r = {"Slots": ("vec", ("slot",)), "UserComments": ("vec", ("tag",)), "Attributes": ("vec", ("tag",))}
        if c == "smob":
            r["EssenceDescription"] = ("one", ("desc",))
    elif c == "desc":
        r = {"Locator": ("vec", ("loc",))}
    elif c == "slot":
        r = {"Segment": ("one", SEGS), "TimelineMobAttributeList": ("vec", ("tag",))}
    elif c == "tag":
        r = {"TaggedValueAttributeList": ("vec", ("tag",))}
    elif c in COMPS:
        r = {"UserComments": ("vec", ("tag",)), "Attributes": ("vec", ("tag",))}
        r.update({"seq": {"Components": ("vec", COMPS)},
                  "sel": {"Selected": ("one", SEGS), "Alternates": ("vec", SEGS)},
                  "nest": {"Slots": ("vec", SEGS)},
                  "opg": {"InputSegments": ("vec", SEGS), "Parameters": ("set", ("param",)), "VfConsts": ("set", ("param",)), "Rendering": ("one", ("clip",))},
                  "trans": {"OperationGroup": ("one", ("opg",))},
                  "egrp": {"Choices": ("vec", ("clip",)), "StillFrame": ("one", ("clip",))}}.get(c, {}))
    return r


def weak(c):
    r = {}
    if c in COMPS:
        r["DataDefinition"] = ("wone", "datdef")
    if c == "opg":
        r["Operation"] = ("wone", "opdef")
    if c == "opdef":
        r = {"DataDefinition": ("wone", "datdef"), "DegradeTo": ("wvec", "opdef"), "ParametersDefined": ("wset", "pardef")}
    return r


def streams(c):
    return {"ess": ("Data", "SampleIndex"), "opg": ("OpGroupAVXParamStream",), "tag": ("TaggedValue_Stream",)}.get(c, ())


def required(c):
    if c in MOBS:
        return ("Slots", "EssenceDescription") if c == "smob" else ("Slots",)
    return {"slot": ("Segment",), "seq": ("Components",), "sel": ("Selected",), "nest": ("Slots",),
            "trans": ("OperationGroup",), "egrp": ("Choices",), "ess": ("Data",)}.get(c, ())


def keyed(c):
    return c in MOBS or c in DEFS or c in ("ess", "param")


PIC, SND = "Kpic", "Ksnd"


def auid_of(tok):
    return AUID(int=(0xABCD << 100) + int(tok[1:]))


def mobid_of(tok):
    m = MobID(int=(0x060a << 240) + (int(tok[1:]) << 64) + 7)
    return m


def tok_of(v):
    if isinstance(v, MobID):
        return "K%d" % ((int(v.int) >> 64) & 0xffffffff)
    return "K%d" % (int(v.int) & 0xffffffff)


def blob(tok):
    """the bytes a token names: size:seed"""
    n, s = tok.split(":")
    n, s = int(n), int(s)
    unit = bytes(((s * 37 + i * 11) % 251) for i in range(251))
    return (unit * (n // 251 + 1))[:n]


_tok = {}


def blob_tok(data):
    return _tok.get((len(data), binascii.crc32(data)), "?%d:%d" % (len(data), binascii.crc32(data)))


def py_at(n, i):
    if i >= 0:
        return i if i < n else None
    return n + i if -i <= n else None


class Shadow(object):
    """the same graph as the specification's st, to pick operands"""

    def __init__(self, files):
        self.n = {}
        for f in files:
            self.n[f + "cs"] = {"file": f, "cls": "cs", "key": "", "val": 0, "kids": {"Mobs": []}, "weak": {}, "str": {}}
            self.n[f + "dict"] = {"file": f, "cls": "dict", "key": "", "val": 0, "kids": {"DataDefinitions": []}, "weak": {}, "str": {}}

    def json(self):
        return json.loads(json.dumps(self.n))

    def reach(self, xs):
        seen = set()
        todo = list(xs)
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for l in self.n[x]["kids"].values():
                todo.extend(l)
        return seen

    def attached(self, f):
        return self.reach([f + "cs", f + "dict"])

    def owner(self, x):
        for p, n in self.n.items():
            for q, l in n["kids"].items():
                if x in l:
                    return p, q, l.index(x)
        return None

    def tops(self, f=None):
        owned = set()
        for n in self.n.values():
            for l in n["kids"].values():
                owned.update(l)
        return [x for x in self.n if x not in owned and self.n[x]["cls"] not in ("cs", "dict") and
                (f is None or self.n[x]["file"] == f)]

    def resolves(self, f, c, k):
        prop = {"opdef": "OperationDefinitions", "pardef": "ParameterDefinitions", "datdef": "DataDefinitions"}[c]
        return [x for x in self.n[f + "dict"]["kids"].get(prop, []) if self.n[x]["key"] == k]

    def dangling(self, x):
        """some weak reference of the tree of x, or of the definitions it needs, has no target"""
        done, todo = set(), list(self.reach([x]))
        while todo:
            y = todo.pop()
            if y in done:
                continue
            done.add(y)
            n = self.n[y]
            for p, ks in n["weak"].items():
                for k in ks:
                    d = self.resolves(n["file"], weak(n["cls"])[p][1], k)
                    if not d:
                        return True
                    todo += d
        return False

    def saveable(self, f):
        for x in self.attached(f):
            n = self.n[x]
            for p in required(n["cls"]):
                if p not in n["kids"] and p not in n["str"]:
                    return False
            c = n["cls"]
            need = {"DataDefinition"} if c in COMPS or c == "opdef" else set()
            if c == "opg":
                need = {"DataDefinition", "Operation"}
            if not need <= set(n["weak"]):
                return False
        return True

    def apply(self, o):
        """effect of an accepted operation"""
        k = o["o"]
        if k == "new":
            self.n[o["p"]] = {"file": o["file"], "cls": o["cls"], "key": o["key"], "val": o["val"],
                              "kids": json.loads(json.dumps(o["kids"])), "weak": json.loads(json.dumps(o["weak"])), "str": {}}
            return
        if k in ("gc", "look", "save", "mobof", "essof", "getitem", "getkey"):
            return
        if k == "reopen":
            self.n[o["file"] + "cs"]["val"] = 1 if o.get("mode") == "r" else 0
            a = self.attached(o["file"])
            for x in list(self.n):
                if self.n[x]["file"] == o["file"] and x not in a:
                    del self.n[x]
            return
        if k == "copy":
            tree = set(o["map"])
            src = dict((x, json.loads(json.dumps(self.n[x]))) for x in tree)
            base = self.reach([o["x"]])
            for x in tree:
                y = o["map"][x]
                s = src[x]
                s["file"] = o["to"]
                s["kids"] = dict((p, [o["map"][z] for z in l]) for p, l in s["kids"].items())
                self.n[y] = s
                if x not in base:
                    prop = {"opdef": "OperationDefinitions", "pardef": "ParameterDefinitions", "datdef": "DataDefinitions"}[s["cls"]]
                    self.n[o["to"] + "dict"]["kids"].setdefault(prop, []).append(y)
            return
        n = self.n[o["p"]]
        prop = o.get("prop")
        l = n["kids"].get(prop, [])
        isset = strong(n["cls"]).get(prop, ("",))[0] == "set"

        def addset(l, x):
            for i, y in enumerate(l):
                if self.n[y]["key"] == self.n[x]["key"]:
                    l[i] = x
                    return
            l.append(x)
        if k == "setval":
            n["val"] = o["nv"]
        elif k == "setkey":
            n["key"] = o["key"]
        elif k == "swrite":
            n["str"][prop] = o["d"]
        elif k in ("none", "del"):
            for d in ("kids", "weak", "str"):
                n[d].pop(prop, None)
        elif k == "set1":
            n["kids"][prop] = [o["x"]]
        elif k in ("append", "extend", "assign"):
            xs = [o["x"]] if k == "append" else o["xs"]
            l = [] if k == "assign" else list(l)
            for x in xs:
                if isset:
                    addset(l, x)
                else:
                    l.append(x)
            n["kids"][prop] = l
        elif k == "insert":
            l = list(l)
            l.insert(o["i"], o["x"])
            n["kids"][prop] = l
        elif k == "setitem":
            l = list(l)
            l[o["i"]] = o["x"]
            n["kids"][prop] = l
        elif k == "pop":
            l = list(l)
            l.pop(o["i"])
            n["kids"][prop] = l
        elif k == "popkey":
            n["kids"][prop] = [y for y in l if self.n[y]["key"] != o["key"]]
        elif k == "clear":
            if prop in n["kids"]:
                n["kids"][prop] = []
        elif k in ("wset1", "wextend", "wassign"):
            ks = [self.n[x]["key"] for x in o["xs"]]
            old = [] if k in ("wset1", "wassign") else list(n["weak"].get(prop, []))
            for a in ks:
                if not (weak(n["cls"])[prop][0] == "wset" and a in old):
                    old.append(a)
            n["weak"][prop] = old
        elif k == "wclear":
            if prop in n["weak"]:
                n["weak"][prop] = []
        else:
            raise RuntimeError(k)


TEMPLATE = {}


def extend(f):
    """sets of classes derived from the keyed ones"""
    def i(n):
        return "0e0f0000-0000-0000-0000-0000000000%02x" % n
    f.metadict.register_typedef_model({
        "strongrefs": {"VfCMobRef": (i(1), str(f.metadict.lookup_classdef("CompositionMob").auid)),
                       "VfConstRef": (i(2), str(f.metadict.lookup_classdef("ConstantValue").auid))},
        "sets": {"VfCMobs": (i(3), i(1)), "VfConstSet": (i(4), i(2))}})
    f.metadict.lookup_classdef("ContentStorage").register_propertydef("VfMobs", i(5), None, i(3), True)
    f.metadict.lookup_classdef("OperationGroup").register_propertydef("VfConsts", i(6), None, i(4), True)


def template(sector, ext=True):
    """an empty file, made once per process"""
    k = (sector, ext)
    if k not in TEMPLATE:
        d = tempfile.mkdtemp(prefix="vf_tmpl_")
        p = os.path.join(d, "t.aaf")
        with aaf2.open(p, "w", sector_size=sector, extensions=ext) as f:
            extend(f)
        with open(p, "rb") as g:
            TEMPLATE[k] = g.read()
        shutil.rmtree(d)
    return TEMPLATE[k]


class Lost(Exception):
    pass


class ObjRun(object):
    def __init__(self, files="A", sector=4096, fresh=False, lru=None):
        self.dir = tempfile.mkdtemp(prefix="vf_obj_")
        self.lru = lru
        self.sector = sector
        self.disk = None        # not None: every closed file is also read by the independent reader
        self.names = list(files)
        self.f = {}
        self.held = {}          # id -> object the program holds
        self.handles = {}       # (id, name) -> property the program got at some time
        self.hr = random.Random(sector)
        self.hold = False
        self.ev = []
        self.broken = False
        self.sums = {}
        self.next = 100
        self.m = Shadow(self.names)
        self.base_sets = {}
        for fn in self.names:
            p = self.path(fn)
            if fresh:
                self.f[fn] = aaf2.open(p, "w", sector_size=sector)
                extend(self.f[fn])
            else:
                with open(p, "wb") as g:
                    g.write(template(sector))
                self.f[fn] = aaf2.open(p, "rw")
            dd = self.f[fn].dictionary
            for num, name, k in ((1, "Picture", "K1"), (2, "Sound", "K2")):
                d = [x for x in dd["DataDefinitions"].value if x.short_name == name][0]
                self.label(d, fn, num, 0)
                self.default_key = getattr(self, "default_key", {})
                self.default_key[str(d.auid)] = k
                self.m.n["%s%d" % (fn, num)] = {"file": fn, "cls": "datdef", "key": k, "val": 0, "kids": {}, "weak": {}, "str": {}}
                self.m.n[fn + "dict"]["kids"]["DataDefinitions"].append("%s%d" % (fn, num))
        self.init = self.m.json()

    def path(self, fn):
        return os.path.join(self.dir, fn + ".aaf")

    # ---------------------------------------------------------- labels
    def label(self, obj, fn, num, val):
        obj["Generation"].value = AUID(int=(ord(fn) << 64) | (num << 32) | val)

    def read_label(self, obj):
        if "Generation" not in obj:
            return None, 0
        v = int(obj["Generation"].value.int)
        return "%s%d" % (chr((v >> 64) & 0xff), (v >> 32) & 0xffffffff), v & 0xffffffff

    def key_token(self, obj):
        k = obj.unique_key
        return self.default_key.get(str(k)) or tok_of(k)

    def key_value(self, cls, tok):
        return mobid_of(tok) if cls in MOBS or cls == "ess" else auid_of(tok)

    # ------------------------------------------------------- navigation
    def prop(self, o):
        return self.get(o["p"])[o["prop"]]

    def wprop(self, o):
        """the property to change, now and then one the program got before it was added or replaced"""
        obj = self.get(o["p"])
        p = obj[o["prop"]]
        h = self.handles.get((o["p"], o["prop"]))
        n = self.hr.random() if self.hold else 1
        if n < .3 and h is not None and h.parent is obj:
            return h
        if n > .9 or (n > .5 and len(self.handles) > 8):
            self.handles.clear()
        elif self.hold:
            # what it gets for another property, now, too
            c = self.m.n[o["p"]]["cls"]
            for q in list(strong(c)) + list(weak(c)) + list(streams(c)):
                if (o["p"], q) not in self.handles:
                    self.handles[(o["p"], q)] = obj[q]
        return p

    def get(self, x):
        if x in self.held:
            return self.held[x]
        if x.endswith("cs"):
            return self.f[x[0]].content
        if x.endswith("dict"):
            return self.f[x[0]].dictionary
        ow = self.m.owner(x)
        if ow is None:
            raise Lost(x)
        p, prop, i = ow
        obj = self.get(p)
        kind = strong(self.m.n[p]["cls"])[prop][0]
        if kind == "one":
            r = obj[prop].value
        elif kind == "vec":
            r = obj[prop][i]
        else:
            k = self.m.n[x]["key"]
            if k in ("K1", "K2") and self.m.n[x]["cls"] == "datdef":
                r = [d for d in obj[prop].value if d.short_name == {"K1": "Picture", "K2": "Sound"}[k]][0]
            else:
                r = obj[prop].get(self.key_value(self.m.n[x]["cls"], k))
        if r is None or self.read_label(r)[0] != x:
            raise Lost("%s at %s.%s" % (x, p, prop))
        return r

    # --------------------------------------------------------- operations
    def make(self, o):
        f = self.f[o["file"]]
        c = o["cls"]
        num = int(o["p"][1:])
        name = FACTORY[c]
        if c == "opg":
            dd = [x for x in self.m.n if self.m.n[x]["cls"] == "opdef" and self.m.n[x]["key"] == o["weak"]["Operation"][0]
                  and self.m.n[x]["file"] == o["file"]][0]
            obj = f.create.OperationGroup(self.get(dd))
        elif c == "tag":
            obj = f.create.TaggedValue("tag%d" % num, num)
        elif c == "clip":
            obj = f.create.SourceClip(start=num, length=num + 5, slot_id=1)
        elif c == "param":
            obj = f.create.ConstantValue()
            obj["Definition"].value = auid_of(o["key"])
            obj["Value"].add_pid_entry()
            obj["Value"].data = obj["Value"].typedef.encode(num, f.metadict.lookup_typedef("aafInt32"))
        elif c in DEFS:
            if c == "pardef":
                obj = f.create.ParameterDef(auid_of(o["key"]), "par%d" % num, "d", "aafInt32")
            else:
                obj = getattr(f.create, name)(auid_of(o["key"]), "def%d" % num, "d")
            if c == "opdef":
                obj.media_kind = "picture"
                obj["NumberInputs"].value = num
        else:
            obj = getattr(f.create, name)()
        if c in MOBS or c == "ess":
            obj.mob_id = mobid_of(o["key"])
        if c == "trans":
            obj.cutpoint = num
        if c == "slot":
            obj.slot_id = num
        if c == "loc":
            obj["URLString"].value = "file:///%d" % num
        self.label(obj, o["file"], num, o["val"])
        self.held[o["p"]] = obj

    def setval(self, x, v):
        obj = self.get(x)
        lid, _ = self.read_label(obj)
        self.label(obj, lid[0], int(lid[1:]), v)

    def pairs(self, x, obj, copy, out):
        """walk the model tree of x and its copy in parallel"""
        out.append((x, copy))
        n = self.m.n[x]
        for prop in sorted(n["kids"]):
            l = n["kids"][prop]
            kind = strong(n["cls"])[prop][0]
            if kind == "one":
                cs = [copy[prop].value]
            elif kind == "vec":
                cs = copy[prop].value
            else:
                cs = [copy[prop].get(self.key_value(self.m.n[y]["cls"], self.m.n[y]["key"])) for y in l]
            if len(cs) != len(l) or any(c is None for c in cs):
                raise Lost("copy of %s.%s" % (x, prop))
            for y, c in zip(l, cs):
                self.pairs(y, None, c, out)

    def do_copy(self, o):
        o["map"] = {}
        self.want = o.pop("want", {})
        src = self.get(o["x"])
        f, g = self.m.n[o["x"]]["file"], o["to"]
        c = src.copy() if f == g else src.copy(root=self.f[g])
        out = []
        self.pairs(o["x"], src, c, out)
        o["map"] = {}
        for x, obj in out:
            self.relabel(obj, g, x, o)
        self.held[o["map"][o["x"]]] = c
        if f != g:
            for prop in ("OperationDefinitions", "ParameterDefinitions", "DataDefinitions"):
                for d in self.f[g].dictionary[prop].value:
                    lid, v = self.read_label(d)
                    if lid and lid[0] == f:
                        self.relabel(d, g, lid, o)

    def relabel(self, obj, g, x, o):
        lid, v = self.read_label(obj)
        if lid != x:
            raise Lost("copy of %s is labelled %s" % (x, lid))
        if x in self.want:
            num = int(self.want[x][1:])
        else:
            self.next += 1
            num = self.next
        self.label(obj, g, num, v)
        o["map"][x] = "%s%d" % (g, num)

    def do(self, op):
        """execute one operation; records the event. -> True if accepted"""
        with contextlib.redirect_stdout(io.StringIO()):
            return self.do1(op)

    def do1(self, op):
        o = dict(op)
        k = o["o"]
        v = ""
        try:
            if k == "look":
                r, v = outcome(self.look, o)
                if r == "ok":
                    o["obs"] = v
                v = ""
            elif k == "copy":
                r, v = outcome(self.do_copy, o)
                v = ""
            else:
                r, v = outcome(self.raw, o)
                v = v if isinstance(v, str) and r == "ok" else ""
        except Lost as e:
            r = "lost"
            o["why"] = str(e)
        if r == "err" and (k == "look" or k == "copy" and not self.readonly(o["to"])):
            r = "lost"
        if r != "ok":
            o["exc"] = outcome.last[-1500:]
            v = ""
        o["r"] = r
        o["v"] = v
        if "obs" not in o:
            o["obs"] = []
        self.ev.append(o)
        if r == "ok":
            try:
                self.m.apply(o)
            except Exception:       # the code accepted what the graph cannot do; the specification decides
                self.broken = True
                return False
            if k == "reopen":
                self.held = dict((x, y) for x, y in self.held.items() if x in self.m.n and x[0] != o["file"])
                if self.disk:
                    self.ev.append(dict({"o": "disk", "file": o["file"], "held": [], "r": "ok", "v": ""}, **self.disk))
        # the program holds every detached tree by its top
        return r == "ok"

    def readonly(self, fn):
        return self.m.n[fn + "cs"]["val"] == 1

    def idof(self, obj):
        return (self.read_label(obj)[0] or "?") if obj is not None else "?"

    def raw(self, o):
        k = o["o"]
        if k == "new":
            self.make(o)
        elif k == "append":
            self.displaced(o, [o["x"]])
            self.wprop(o).append(self.get(o["x"]))
        elif k == "extend":
            self.displaced(o, o["xs"])
            self.wprop(o).extend(self.arg(o))
        elif k == "assign":
            if o.get("holdold"):
                self.keep(o)
            self.wprop(o).value = self.arg(o)
        elif k == "insert":
            self.wprop(o).insert(o["i"], self.get(o["x"]))
        elif k == "setitem":
            p = self.prop(o)
            old = None
            try:
                old = p[o["i"]]
            except IndexError:
                pass
            self.wprop(o)[o["i"]] = self.get(o["x"])
            if old is not None:
                self.held[self.idof(old)] = old
        elif k == "pop":
            x = self.wprop(o).pop(o["i"])
            self.held[self.idof(x)] = x
            return self.idof(x)
        elif k == "popkey":
            kc = strong(self.m.n[o["p"]]["cls"])[o["prop"]][1][0]
            x = self.wprop(o).pop(self.key_value(kc, o["key"]))
            self.held[self.idof(x)] = x
            return self.idof(x)
        elif k == "getitem":
            return self.idof(self.prop(o)[o["i"]])
        elif k == "getkey":
            kc = strong(self.m.n[o["p"]]["cls"])[o["prop"]][1][0]
            p = self.prop(o)
            kv = self.key_value(kc, o["key"])
            isin = kv in p
            g = p.get(kv)
            try:
                x = p[kv]
            except KeyError:
                if isin or g is not None:
                    return "inconsistent"
                raise
            if not isin or g is not x:
                return "inconsistent"
            return self.idof(x)
        elif k == "clear":
            self.keep(o)
            self.wprop(o).clear()
        elif k == "set1":
            self.keep(o)
            if o["prop"] == "Segment" and o["x"][-1] in "13579":
                self.get(o["p"]).segment = self.get(o["x"])
            else:
                self.wprop(o).value = self.get(o["x"])
        elif k == "none":
            self.keep(o)
            self.wprop(o).value = None
        elif k == "del":
            self.keep(o)
            del self.get(o["p"])[o["prop"]]
        elif k == "wset1":
            self.wprop(o).value = self.get(o["xs"][0])
        elif k == "wextend":
            self.wprop(o).extend(self.arg(o))
        elif k == "wassign":
            self.wprop(o).value = [self.get(x) for x in o["xs"]]
        elif k == "wclear":
            self.wprop(o).clear()
        elif k == "setval":
            self.setval(o["p"], o["nv"])
        elif k == "delkey":
            c = self.m.n[o["p"]]["cls"]
            del self.get(o["p"])["MobID" if c in MOBS + ("ess",) else "Identification" if c in DEFS else "Definition"]
        elif k == "setkey":
            n = self.m.n[o["p"]]
            obj = self.get(o["p"])
            kv = self.key_value(n["cls"], o["key"])
            if n["cls"] in DEFS + ("param",):
                obj.auid = kv
            else:
                obj.mob_id = kv
        elif k == "swrite":
            d = blob(o["d"])
            _tok[(len(d), binascii.crc32(d))] = o["d"]
            s = self.wprop(o).open("w")
            s.write(d)
        elif k == "mobof":
            c = self.f[o["file"]].create.SourceClip()
            c.mob_id = mobid_of(o["key"])
            m = c.mob
            return "-" if m is None else self.idof(m)
        elif k == "essof":
            m = self.f[o["file"]].create.SourceMob()
            m.mob_id = mobid_of(o["key"])
            e = m.essence
            return "-" if e is None else self.idof(e)
        elif k == "gc":
            self.collect(o)
        elif k == "save":
            self.f[o["file"]].save()
        elif k == "reopen":
            f = self.f[o["file"]]
            path = self.path(o["file"])
            f.close()
            if "mode" in o:
                o["same"], o["after"] = self.after_close(f, o["file"])
            self.m.n[o["file"] + "cs"]["val"] = 1 if o.get("mode") == "r" else 0
            if self.disk is not None:
                self.disk = self.read_disk(o["file"])
            keep = set(x for x in self.held if x[0] != o["file"])
            self.held = dict((x, self.held[x]) for x in keep)
            self.f[o["file"]] = aaf2.open(path, o.get("mode", "rw"))
            if o.get("mode") == "r":
                with open(path, "rb") as g:
                    self.sums[o["file"]] = hashlib.md5(g.read()).hexdigest()
        else:
            raise RuntimeError(k)
        return ""

    def arg(self, o):
        l = [self.get(x) for x in o["xs"]]
        w = o.get("w", "list")
        return tuple(l) if w == "tuple" else (x for x in l) if w == "gen" else l

    def keep(self, o):
        """hold the present members of a property: they become detached"""
        n = self.m.n[o["p"]]
        for x in n["kids"].get(o["prop"], []):
            if o.get("hold", 1) or not (x in self.m.attached(n["file"])):
                self.held[x] = self.get(x)

    def displaced(self, o, xs):
        """hold the members of a set that are about to be displaced by another of the same key"""
        n = self.m.n[o["p"]]
        if strong(n["cls"]).get(o["prop"], ("",))[0] != "set":
            return
        keys = [self.m.n[x]["key"] for x in xs]
        for y in n["kids"].get(o["prop"], []):
            if self.m.n[y]["key"] in keys and not y.endswith(("A1", "A2", "B1", "B2")):
                self.held[y] = self.get(y)

    def after_close(self, f, fn):
        """a closed file: (its bytes are those it was opened with, what it wrongly still does)"""
        def md5():
            with open(self.path(fn), "rb") as g:
                return hashlib.md5(g.read()).hexdigest()
        before = md5()
        same = 0 if self.sums.get(fn, before) != before else 1
        self.sums.pop(fn, None)
        why = ""
        if f.mode != "rb":
            for what, fn2 in (("save", f.save), ("close", f.close)):
                if outcome(fn2)[0] != "err":
                    why = what + " is accepted"
        if md5() != before:
            why = "bytes change"
        return same, why

    def read_disk(self, fn):
        a = aafimg.AafImage(self.path(fn))
        self.disks = getattr(self, "disks", 0) + 1
        facts = a.facts(meta=(len(self.ev) + self.disks) % 16 == 0)
        obs = []
        if not facts["err"]:
            try:
                DiskLook(a, fn, self.m.n[fn + "cs"]["val"]).run(obs)
            except Exception as e:
                facts["err"] = "%s %s" % (type(e).__name__, e)
        return {"facts": facts, "obs": obs}

    def collect(self, o):
        att = set()
        for fn in self.names:
            att |= self.m.attached(fn)
        tops = set(self.m.tops())
        for x in list(self.held):
            if x in tops or x in o["keep"]:
                continue
            del self.held[x]
        for fn, f in self.f.items():
            try:
                f.manager.lru_cache = type(f.manager.lru_cache)(self.lru or 2)
            except Exception:
                pass
        gc.collect()

    # -------------------------------------------------------- observation
    def look(self, o):
        f = self.f[o["file"]]
        out = []
        self.observe(f.content, o["file"] + "cs", out)
        self.observe(f.dictionary, o["file"] + "dict", out)
        for x in o["held"]:
            self.observe(self.get(x), None, out)
        return out

    def observe(self, obj, known, out):
        lid, val = (known, 0) if known else self.read_label(obj)
        if lid is None:
            return None
        cls = self.cls_of(obj) if not known else ("cs" if known.endswith("cs") else "dict")
        if cls == "cs":
            val = 1 if obj.root.mode == "rb" else 0
        rec = {"id": lid, "cls": cls, "val": val, "key": self.key_token(obj) if keyed(cls) else "", "kids": {}, "weak": {}, "str": {}}
        out.append(rec)
        keys = obj.keys()
        for p, (kind, _) in sorted(strong(cls).items()):
            if p not in keys:
                if p in obj:
                    rec["kids"][p] = ["?present"]
                continue
            pr = obj[p]
            if kind == "one":
                c = pr.value
                kids = [c] if c is not None else []
            elif kind == "vec":
                kids = pr.value
                if len(pr) != len(kids) or [id(x) for x in pr] != [id(x) for x in kids]:
                    rec["kids"][p] = ["?length"]
                    continue
            else:
                kids = []
                items = list(pr.items())
                if len(items) != len(pr) or len(pr.value) != len(items):
                    rec["kids"][p] = ["?length"]
                    continue
                bad = False
                for kk, c in items:
                    if c.unique_key != kk or kk not in pr or pr.get(kk) is not c:
                        bad = True
                    kids.append(c)
                if bad:
                    rec["kids"][p] = ["?key"]
                    continue
            ids = []
            for c in kids:
                i = self.observe(c, None, out)
                if i is None and cls == "dict":
                    continue          # definitions every new file has
                ids.append(i if i is not None else "?unlabelled")
            if not (cls in ("dict", "cs") and not ids):
                rec["kids"][p] = ids
        for p, (kind, _) in weak(cls).items():
            if p not in keys:
                continue
            try:
                v = obj[p].value
                l = [v] if kind == "wone" else v
                rec["weak"][p] = ["?" if x is None else (self.read_label(x)[0] or "?") for x in l]
                if "?" in rec["weak"][p]:
                    rec["weak"][p] = ["?"]
            except KeyError:
                rec["weak"][p] = ["?"]
        for p in streams(cls):
            if p in keys:
                rec["str"][p] = blob_tok(obj[p].open("r").read())
        return lid

    def cls_of(self, obj):
        if not CLASS_IDS:
            for c, name in FACTORY.items():
                CLASS_IDS[type(obj.root.metadict.lookup_class(name)) and self.class_auid(obj.root, name)] = c
        return CLASS_IDS.get(str(obj.classdef.auid), "?" + str(obj.classdef.class_name))

    def class_auid(self, root, name):
        return str(root.metadict.lookup_classdef(name).auid)

    def close(self):
        for f in self.f.values():
            try:
                f.f.close()
            except Exception:
                pass
        shutil.rmtree(self.dir, ignore_errors=True)

    def trace(self, label="", key=None):
        t = {"init": self.init, "ev": [clean(e) for e in self.ev], "label": label}
        if key:
            t["key"] = key
        return t


def clean(e):
    return dict((k, v) for k, v in e.items() if k not in ("w", "hold"))


class DiskLook(object):
    """ObjRun.observe over the independent reader"""
    KEYS = dict([(uuid.UUID(int=(0xABCD << 100) + n).bytes_le.hex(), "K%d" % n) for n in range(2000)])
    CLS = {}

    def __init__(self, img, fn, mode=0):
        self.a, self.fn, self.mode = img, fn, mode
        if not self.CLS:
            byname = dict((img.class_name(c), c) for c in img.classes)
            for c, name in FACTORY.items():
                n = {"OperationDef": "OperationDefinition", "ParameterDef": "ParameterDefinition", "DataDef": "DataDefinition"}.get(name, name)
                DiskLook.CLS[byname[n]] = c
        self.gen = {}

    def label(self, o):
        pid = self.a.named(o.cls).get("Generation") if o.cls not in self.gen else self.gen[o.cls]
        self.gen[o.cls] = pid
        if pid is None or pid not in o.props:
            return None, 0
        v = uuid.UUID(bytes_le=bytes(o.props[pid][1])).int
        return "%s%d" % (chr((v >> 64) & 0xff), (v >> 32) & 0xffffffff), v & 0xffffffff

    def key(self, cls, h, label):
        if cls == "datdef" and label and label[1:] in ("1", "2"):
            return "K" + label[1:]
        if len(h) == 64:
            b = bytes.fromhex(h)
            return "K%d" % int.from_bytes(b[20:24], "big")
        return self.KEYS.get(h, "?" + h)

    def run(self, out):
        a = self.a
        hdr = a.index(a.root, 2)["kids"][0]
        n = a.named(hdr.cls)
        self.observe(a.index(hdr, n["Content"])["kids"][0], "cs", out)
        out[0]["val"] = self.mode
        self.observe(a.index(hdr, n["Dictionary"])["kids"][0], "dict", out)

    def observe(self, o, known, out):
        a = self.a
        lid, val = (self.fn + known, 0) if known else self.label(o)
        if lid is None:
            return None
        cls = known or self.CLS.get(o.cls, "?" + a.class_name(o.cls))
        names = a.named(o.cls)
        rec = {"id": lid, "cls": cls, "val": val, "key": "", "kids": {}, "weak": {}, "str": {}}
        out.append(rec)
        if keyed(cls):
            pid = names["Definition"] if cls == "param" else names["MobID"] if cls in MOBS + ("ess",) else names["Identification"]
            rec["key"] = self.key(cls, o.props[pid][1].hex(), lid)
        for p, (kind, _) in sorted(strong(cls).items()):
            pid = names[p]
            if pid not in o.props:
                continue
            ids = []
            for k in a.index(o, pid)["kids"]:
                i = self.observe(k, None, out)
                if i is None and cls == "dict":
                    continue
                ids.append(i if i is not None else "?unlabelled")
            if not (cls in ("dict", "cs") and not ids):
                rec["kids"][p] = ids
        for p, (kind, t) in weak(cls).items():
            pid = names[p]
            if pid not in o.props:
                continue
            r = a.index(o, pid)
            rec["weak"][p] = []
            path = a.table[r["tag"]]
            t = a.root
            for q in path[:-1]:
                t = a.index(t, q)["kids"][0]
            s = a.index(t, path[-1]) if path[-1] in t.props else {"keys": [], "kids": []}
            at = dict(zip(s["keys"], s["kids"]))
            for h in r["keys"]:
                x = at.get(h)
                rec["weak"][p].append("?" if x is None else (self.label(x)[0] or "?"))
            if "?" in rec["weak"][p]:
                rec["weak"][p] = ["?"]
        for p in streams(cls):
            pid = names[p]
            if pid in o.props:
                rec["str"][p] = blob_tok(a.stream(o.id, a.index(o, pid)["name"]))
        return lid
