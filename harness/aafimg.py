"""Independent reader of a saved AAF file: the object layer on top of harness/cfbimg.py. Shares no
code with /repo. It follows the file's own MetaDictionary to name classes and properties, and only
projects; spec/AAFImage.tla and spec/Objects.tla judge."""
import struct, uuid
from cfbimg import open_image, Bad, NOSTREAM

SINGLE, VECTOR, SET, WEAK, WVEC, WSET, STREAM, DATA = 0x22, 0x32, 0x3A, 0x02, 0x12, 0x1A, 0x42, 0x82
P = "0d010101-%s-0000-060e-2b3402060101"
CLASSDEF, PROPDEF, METADICT = P % "0201", P % "0202", P % "0225"
T_INT, T_STRONG, T_WEAK, T_ENUM, T_FIXED, T_VAR, T_SET, T_STRING, T_STREAM, T_RECORD = [P % ("02%02x" % k) for k in range(4, 14)]


def key_of(k, pid):
    """the key a member carries; sets of parameters are indexed under the identifier of definitions, which
    parameters do not have: their key is the definition they name"""
    if k is None:
        return ""
    if pid == 0x1B01 and pid not in k.props:
        pid = 0x4C01
    return k.props[pid][1].hex() if pid in k.props else ""


def auid(b):
    return str(uuid.UUID(bytes_le=bytes(b)))


def text(b):
    s = bytes(b).decode("utf-16le", "replace")
    if not s.endswith("\0"):
        return "?" + s
    return s[:-1]


class Obj(object):
    __slots__ = ("id", "path", "cls", "props", "err", "order")


class AafImage(object):
    def __init__(self, path):
        self.err = ""
        self.objs = {}
        try:
            self.img = open_image(path)
            if self.img.err:
                raise Bad(self.img.err)
            self.kids = {}
            self.types, self.classes = {}, {}
            self.root = self.obj(0, "/")
            self.table = self.read_table()
            self.read_meta()
        except (Bad, struct.error, IndexError, KeyError, ValueError) as e:
            self.err = "%s %s" % (type(e).__name__, e)

    # ------------------------------------------------------------ storages
    def children(self, i):
        if i not in self.kids:
            out, st, n = {}, [self.img.entries[i]["child"]], 0
            while st:
                x = st.pop()
                if x == NOSTREAM:
                    continue
                n += 1
                if n > len(self.img.entries):
                    raise Bad("sibling tree is cyclic")
                e = self.img.entries[x]
                out[e["name"]] = x
                st += [e["left"], e["right"]]
            self.kids[i] = out
        return self.kids[i]

    def stream(self, i, name):
        x = self.children(i).get(name)
        if x is None or self.img.entries[x]["type"] != 2:
            return None
        return self.img.content(x)

    def obj(self, i, path):
        if i in self.objs:
            return self.objs[i]
        o = Obj()
        o.id, o.path, o.cls, o.err = i, path, auid(self.img.entries[i]["cls"]), ""
        o.props, o.order = {}, []
        self.objs[i] = o
        b = self.stream(i, "properties")
        if b is None:
            o.err = "no properties stream"
            return o
        bo, ver, n = struct.unpack("<BBH", b[:4])
        if bo != 0x4c or ver != 0x20:
            o.err = "byte order or version"
            return o
        if len(b) < 4 + 6 * n:
            o.err = "property index truncated"
            return o
        pos = 4 + 6 * n
        for k in range(n):
            pid, fmt, size = struct.unpack("<HHH", b[4 + 6 * k:10 + 6 * k])
            if pos + size > len(b):
                o.err = "property data truncated"
                return o
            if pid in o.props:
                o.err = "property listed twice"
                return o
            o.props[pid] = (fmt, b[pos:pos + size])
            o.order.append(pid)
            pos += size
        if pos != len(b):
            o.err = "bytes after the last property"
        return o

    def index(self, o, pid):
        """decoded contents of a property that refers to something"""
        fmt, d = o.props[pid]
        r = {"fmt": fmt, "err": "", "name": "", "kids": [], "local": [], "keys": [], "next": 0, "kpid": 0, "ksize": 0, "tag": 0}
        try:
            if fmt == SINGLE:
                r["name"] = text(d)
                r["kids"] = [self.child(o, r["name"])]
            elif fmt in (VECTOR, SET):
                r["name"] = text(d)
                b = self.stream(o.id, r["name"] + " index")
                if b is None:
                    r["err"] = "no index stream"
                elif fmt == VECTOR:
                    n, r["next"], last = struct.unpack("<III", b[:12])
                    r["local"] = list(struct.unpack("<%dI" % n, b[12:]))
                else:
                    n, r["next"], last, r["kpid"], r["ksize"] = struct.unpack("<IIIHB", b[:15])
                    es = b[15:]
                    w = 8 + r["ksize"]
                    if len(es) != n * w:
                        r["err"] = "set index size"
                    else:
                        for k in range(n):
                            lk, rc = struct.unpack("<II", es[k * w:k * w + 8])
                            if rc != 1:
                                r["err"] = "reference count"
                            r["local"].append(lk)
                            r["keys"].append(bytes(es[k * w + 8:(k + 1) * w]).hex())
                r["kids"] = [self.child(o, "%s{%x}" % (r["name"], k)) for k in r["local"]]
            elif fmt == WEAK:
                r["tag"], r["kpid"], r["ksize"] = struct.unpack("<HHB", d[:5])
                r["keys"] = [bytes(d[5:]).hex()]
                if len(d) != 5 + r["ksize"]:
                    r["err"] = "key size"
            elif fmt in (WVEC, WSET):
                r["name"] = text(d)
                b = self.stream(o.id, r["name"] + " index")
                if b is None:
                    r["err"] = "no index stream"
                else:
                    n, r["tag"], r["kpid"], r["ksize"] = struct.unpack("<IHHB", b[:9])
                    es = b[9:]
                    if len(es) != n * r["ksize"]:
                        r["err"] = "weak index size"
                    else:
                        r["keys"] = [bytes(es[k * r["ksize"]:(k + 1) * r["ksize"]]).hex() for k in range(n)]
            elif fmt == STREAM:
                if d[:1] != b"\x55":
                    r["err"] = "stream byte order mark"
                r["name"] = text(d[1:])
                if self.stream(o.id, r["name"]) is None:
                    r["err"] = "no stream"
        except (struct.error, Bad) as e:
            r["err"] = "malformed (%s)" % type(e).__name__
        return r

    def child(self, o, name):
        x = self.children(o.id).get(name)
        if x is None or self.img.entries[x]["type"] != 1:
            return None
        return self.obj(x, (o.path if o.path != "/" else "") + "/" + name)

    def read_table(self):
        b = self.stream(0, "referenced properties")
        if b is None:
            raise Bad("no referenced properties stream")
        bo, np, n = struct.unpack("<BHI", b[:7])
        w = struct.unpack("<%dH" % n, b[7:7 + 2 * n])
        if bo != 0x4c or len(b) != 7 + 2 * n:
            raise Bad("referenced properties stream malformed")
        out, cur = [], []
        for x in w:
            if x:
                cur.append(x)
            else:
                out.append(cur)
                cur = []
        if cur or len(out) != np:
            raise Bad("referenced properties count")
        return out

    # --------------------------------------------------------- dictionary
    def read_meta(self):
        md = self.child(self.root, text(self.root.props[1][1]))
        if md is None:
            raise Bad("no metadictionary")
        self.meta = md
        for t in self.index(md, 4)["kids"]:
            if t is None:
                continue
            self.types[auid(t.props[5][1])] = t
        for c in self.index(md, 3)["kids"]:
            if c is None:
                continue
            props = {}
            if 9 in c.props:
                for p in self.index(c, 9)["kids"]:
                    if p is not None:
                        props[struct.unpack("<H", p.props[0xD][1])[0]] = p
            self.classes[auid(c.props[5][1])] = (c, auid(bytes(self.index(c, 8)["keys"] and bytes.fromhex(self.index(c, 8)["keys"][0]))), props)
        self.lineage_ = {}

    def lineage(self, cls):
        """class id and its ancestors; None where a link is missing"""
        if cls not in self.lineage_:
            out, c = [], cls
            while True:
                if c not in self.classes or c in out:
                    out = None
                    break
                out.append(c)
                if self.classes[c][1] == c:
                    break
                c = self.classes[c][1]
            self.lineage_[cls] = out
        return self.lineage_[cls]

    def propdef(self, cls, pid):
        for c in self.lineage(cls) or ():
            if pid in self.classes[c][2]:
                return self.classes[c][2][pid]
        return None

    def propdefs(self, cls):
        for c in self.lineage(cls) or ():
            for pid, p in self.classes[c][2].items():
                yield pid, p

    def named(self, cls):
        """property name -> pid"""
        return dict((text(p.props[6][1]), pid) for pid, p in self.propdefs(cls))

    def class_name(self, cls):
        return text(self.classes[cls][0].props[6][1]) if cls in self.classes else "?" + cls

    def fmt_of_type(self, t, deep=0):
        """-> (storage format, referenced class id or '')"""
        if t not in self.types or deep > 8:
            return 0, ""
        o = self.types[t]

        def ref(pid):
            return auid(bytes.fromhex(self.index(o, pid)["keys"][0]))
        if o.cls == T_STRONG:
            return SINGLE, ref(0x11)
        if o.cls == T_WEAK:
            return WEAK, ref(0x12)
        if o.cls == T_STREAM:
            return STREAM, ""
        if o.cls in (T_VAR, T_SET):
            f, c = self.fmt_of_type(ref(0x19 if o.cls == T_VAR else 0x1A), deep + 1)
            k = {SINGLE: (VECTOR, SET), WEAK: (WVEC, WSET)}.get(f)
            if k:
                return k[0 if o.cls == T_VAR else 1], c
            return (f if f == 0 else DATA), ""
        return DATA, ""

    # ----------------------------------------------------------- projection
    def reach(self, start=None):
        """objects reachable over strong references, with how often each is referred to"""
        out, todo, times = [], [start or self.root], {}
        seen = set()
        while todo:
            o = todo.pop()
            if o.id in seen:
                continue
            seen.add(o.id)
            out.append(o)
            for pid in o.order:
                if o.props[pid][0] in (SINGLE, VECTOR, SET):
                    for k in self.index(o, pid)["kids"]:
                        if k is not None:
                            times[k.id] = times.get(k.id, 0) + 1
                            todo.append(k)
        return out, times

    def target(self, r):
        """the set a weak reference points into: (keys there, key pid) or None"""
        if r["tag"] >= len(self.table):
            return None
        o = self.root
        path = self.table[r["tag"]]
        for pid in path[:-1]:
            if o is None or pid not in o.props:
                return None
            k = self.index(o, pid)["kids"]
            o = k[0] if k else None
        if o is None:
            return None
        if path[-1] not in o.props:
            return [], r["kpid"]
        s = self.index(o, path[-1])
        return s["keys"], s["kpid"]

    def fact(self, o, times):
        lin = self.lineage(o.cls)
        rec = {"path": o.path, "cls": o.cls, "err": o.err, "defined": 0 if lin is None else 1,
               "owners": times.get(o.id, 0), "root": 1 if o is self.root else 0, "props": [], "missing": []}
        for pid in o.order:
            fmt, d = o.props[pid]
            pd = self.propdef(o.cls, pid)
            want, rc = (0, "") if pd is None else self.fmt_of_type(auid(pd.props[0xB][1]))
            p = {"pid": pid, "fmt": fmt, "want": want, "err": ""}
            if fmt != DATA:
                r = self.index(o, pid)
                p["err"] = r["err"]
                if fmt in (SINGLE, VECTOR, SET):
                    p.update({"there": [0 if k is None else 1 for k in r["kids"]],
                              "isa": [1 if k is not None and rc in (self.lineage(k.cls) or ()) else 0 for k in r["kids"]],
                              "local": ["%x" % x for x in r["local"]], "over": [1 if x >= r["next"] else 0 for x in r["local"]]})
                if fmt == SET:
                    p.update({"keys": r["keys"], "ksize": r["ksize"],
                              "held": [key_of(k, r["kpid"]) for k in r["kids"]]})
                if fmt in (WEAK, WVEC, WSET):
                    t = self.target(r)
                    p.update({"target": 0 if t is None else 1, "kpid": r["kpid"], "tkpid": t[1] if t else -1, "ksize": r["ksize"],
                              "keys": r["keys"], "found": [1 if t and k in set(t[0]) else 0 for k in r["keys"]]})
            rec["props"].append(p)
        for pid, pd in self.propdefs(o.cls):
            if pd.props.get(0xC, (0, b""))[1] == b"\0" and pid not in o.props and text(pd.props[6][1]) != "ObjClass":
                rec["missing"].append(text(pd.props[6][1]))
        return rec

    def facts(self, meta=False):
        if self.err:
            return {"err": self.err, "objs": [], "tmp": 0}
        try:
            objs, times = self.reach()
            out = [self.fact(o, times) for o in objs if meta or not o.path.startswith(self.meta.path)]
        except (Bad, struct.error, IndexError, KeyError, ValueError) as e:
            return {"err": "%s %s" % (type(e).__name__, e), "objs": [], "tmp": 0}
        return {"err": "", "objs": out, "tmp": 1 if "tmp" in self.children(0) else 0}
