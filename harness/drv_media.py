"""Media: links MXF files and probed media on the code for spec/Media.tla.

The shadow state (self.have) only picks operands; what holds is decided by the specification."""
from common import *
import contextlib, datetime, io, struct
import aaf2
from aaf2 import mxf
from fractions import Fraction
from urllib.parse import unquote

LAYOUTS = ["FullFrame", "SeparateFields", "OneField", "MixedFields", "SegmentedFrame"]
DIRECTIONS = ["TapeToFilmSpeed", "FilmToTapeSpeed"]
PULLDOWNS = ["TwoThreePD", "PALPD", "OneToOneNTSC", "OneToOnePAL", "VideoTapNTSC", "OneToOneHDSixty", "TwentyFourToSixtyPD", "TwoToOnePD"]
DATADEFS = {"Picture": "01030202-0100-0000-060e-2b3404010101", "Sound": "01030202-0200-0000-060e-2b3404010101", "Timecode": "01030201-0100-0000-060e-2b3404010101",
            "Data": "01030202-0300-0000-060e-2b3404010101", "DescriptiveMetadata": "01030201-1000-0000-060e-2b3404010101", "Edgecode": "d2bb2af0-d234-11d2-89ee-006097116212",
            "": "11223344-1000-0000-060e-2b3404010101"}
SETS = {"preface": 0x2f, "storage": 0x18, "master": 0x36, "src": 0x37, "timeline": 0x3b, "static": 0x3a, "event": 0x39, "seq": 0x0f, "clip": 0x11, "tc": 0x14, "pull": 0x0c,
        "fill": 0x09, "scope": 0x0d, "group": 0x05, "multi": 0x44, "cdci": 0x28, "rgba": 0x29, "anc": 0x5c, "mpeg": 0x51, "pcm": 0x48, "aes3": 0x47, "sound": 0x42,
        "import": 0x4a, "tape": 0x2e, "locator": 0x32, "comment": 0x3f, "essence": 0x23, "unknown": 0x7e}
USAGES = {"Usage_SubClip": "0d010102-0101-0500-060e-2b3404010101", "Usage_Template": "0d010102-0101-0900-060e-2b3404010101"}
U32, I32, I64, U16 = ">L", ">l", ">q", ">H"
ATTRS = {"StoredWidth": (0x3203, U32), "StoredHeight": (0x3202, U32), "SampledHeight": (0x3208, U32), "SampledWidth": (0x3209, U32), "Length": (0x3002, I64),
         "BlockAlign": (0x3d0a, U16), "QuantizationBits": (0x3d01, U32), "Channels": (0x3d07, U32), "AverageBPS": (0x3d09, U32), "ComponentWidth": (0x3301, U32),
         "HorizontalSubsampling": (0x3302, U32), "VerticalSubsampling": (0x3308, U32), "LinkedSlotID": (0x3006, U32),
         "SampleRate": (0x3001, "r"), "AudioSamplingRate": (0x3d03, "r"), "ImageAspectRatio": (0x320e, "r"), "VideoLineMap": (0x320d, "m"), "PixelLayout": (0x3401, "p"),
         "FrameLayout": (0x320c, "l"), "Compression": (0x3201, "a"), "FrameSampleSize": ("a0240060-94eb-75cb-ce2a-ca5051ab11d3", I32),
         "ResolutionID": ("a0240060-94eb-75cb-ce2a-ca4d51ab11d3", I32)}
PICTURE = ["SampleRate", "StoredWidth", "StoredHeight", "ImageAspectRatio", "VideoLineMap", "FrameLayout"]
OF = {"cdci": PICTURE + ["ComponentWidth", "HorizontalSubsampling"], "rgba": PICTURE + ["PixelLayout"], "anc": ["SampleRate"], "multi": ["SampleRate"], "tape": [], "import": [],
      "pcm": ["BlockAlign", "AverageBPS", "Channels", "QuantizationBits", "AudioSamplingRate", "SampleRate"]}
OF["mpeg"], OF["aes3"], OF["sound"] = OF["cdci"], OF["pcm"], OF["pcm"]
MORE = ["Length", "LinkedSlotID", "SampledWidth", "SampledHeight", "Compression", "VerticalSubsampling", "FrameSampleSize", "ResolutionID"]
PIXELS = ["yuv420p", "yuv422p", "yuv444p", "yuvj420p", "yuvj422p", "yuv420p10le", "yuv422p10le", "yuv444p10le", "yuv422p12le", "yuv444p12le", "yuv420p16le", "yuv444p16be", "yuva444p10le"]
PROFILES = ["Baseline", "Constrained Baseline", "Main", "Extended", "High", "High 10", "High 10 Intra", "High 4:2:2", "High 4:2:2 Intra", "High 4:4:4", "High 4:4:4 Predictive",
            "CAVLC 4:4:4", "Stereo High"]
SAMPLES = ["u8", "u8p", "s16", "s16p", "s32", "s32p", "flt", "fltp", "dbl", "dblp", "s64", "s64p"]


def ul(text):
    """bytes of an AUID as MXF keeps it: halves swapped"""
    b = bytes.fromhex(text.replace("-", ""))
    return b[8:] + b[:8]


def swapped(b):
    """the material number of a mob id is stored with its first three parts little endian"""
    return b[:16] + b[19:15:-1] + b[21:19:-1] + b[23:21:-1] + b[24:]


def ratio(v):
    f = Fraction(v.numerator, v.denominator) if hasattr(v, "numerator") else Fraction(v)
    return "%d/%d" % (f.numerator, f.denominator)


def opt(v, fn=str):
    return [] if v is None else [fn(v)]


class Mxf(object):
    """writes one MXF file"""
    def __init__(self, r):
        self.r = r
        self.sets = []
        self.tags = {}
        self.made = {}

    def tag(self, t):
        if isinstance(t, int):
            return t
        return self.tags.setdefault(t, 0x8001 + 3 * len(self.tags))

    def add(self, kind, props):
        """props: (tag, bytes) in any order"""
        r = self.r
        uid = bytes(r.getrandbits(8) for _ in range(16))
        items = [(0x3c0a, uid)] + [(self.tag(t), v) for t, v in props]
        if r.random() < .15:
            items.append((0x7ff0 + r.randrange(4), bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 5, 300, 5000])))))
        r.shuffle(items)
        self.sets.append((kind, b"".join(struct.pack(">HH", t, len(v)) + v for t, v in items)))
        return uid

    def refs(self, uids):
        return struct.pack(">LL", len(uids), 16) + b"".join(uids)

    def text(self, s):
        return s.encode("utf-16be") + (b"\0\0" if self.r.random() < .5 else b"")

    def attr(self, name, v):
        tag, how = ATTRS[name]
        if how == "r":
            f = Fraction(v)
            k = self.r.choice([1, 1, 2]) if name != "ImageAspectRatio" else 1
            b = struct.pack(">ll", f.numerator * k, f.denominator * k)
        elif how == "m":
            m = json.loads(v)
            b = struct.pack(">LL", len(m), 4) + b"".join(struct.pack(I32, x) for x in m)
        elif how == "p":
            m = json.loads(v)
            b = b"".join(bytes(x) for x in m)
            b += bytes(16 - len(b))
        elif how == "l":
            b = bytes([LAYOUTS.index(v)])
        elif how == "a":
            b = ul(v)
        else:
            b = struct.pack(how, int(v))
        return tag, b

    def segment(self, g):
        p = [(0x0201, ul(DATADEFS[g["dd"]]))]

        def num(tag, how, key):
            for v in g.get(key, []):
                p.append((tag, struct.pack(how, int(v))))
        num(0x0202, I64, "n")
        k = g["k"]
        if k in ("seq", "group"):
            p.append((0x1001 if k == "seq" else 0x0501, self.refs([self.segment(h) for h in g["c"]])))
        elif k == "clip":
            for v in g["src"]:
                p.append((0x1101, bytes(32) if v == "" else self.ids[v]))
            num(0x1102, U32, "slot")
            num(0x1201, I64, "at")
        elif k == "tc":
            num(0x1502, U16, "fps")
            num(0x1501, I64, "at")
            for v in g["drop"]:
                p.append((0x1503, bytes([int(v)])))
        elif k == "pull":
            p.append((0x0d01, self.segment(g["c"][0]) if g["c"][0]["k"] != "lost" else bytes(range(16))))
            for v in g["phase"]:
                p += [(0x0d04, struct.pack(I32, int(v))), (0x0d02, bytes([PULLDOWNS.index(g["kind"])])), (0x0d03, bytes([DIRECTIONS.index(g["dir"])]))]
        elif k == "scope":
            p += [(0x0e01, struct.pack(I32, g["scope"])), (0x0e02, struct.pack(I32, g["slot"]))]
        elif k == "lost":
            return bytes(range(16))
        return self.add(k, p)

    def desc(self, d):
        p = [self.attr(x, v) for x, v in d["a"].items() if x]
        if d["k"] == "multi":
            p.append((0x3f01, self.refs([self.desc(x) for x in d["fd"]])))
        if d["loc"]:
            p.append((0x2f01, self.refs([self.add("locator", [(0x4001, self.text(x))]) for x in d["loc"]])))
        return self.add(d["k"], p)

    def comment(self, c):
        p = [(0x5001, self.text(c["n"]))]
        le, be, num = "00060e2b-3401-0401-4c00-021001000000", "00060e2b-3401-0401-4201-100200000000", "00060e2b-3401-0401-4c00-070101000000"
        if not c["v"]:
            if self.r.random() < .7:
                p.append((0x5003, ul("00060e2b-3401-0401-4c00-090901000000") + b"\1abcd"))
        elif c["i"]:
            p.append((0x5003, ul(num) + b"\1" + struct.pack("<l", int(c["v"][0]))))
        elif self.r.random() < .6:
            p.append((0x5003, ul(le) + b"\1" + c["v"][0].encode("utf-16le") + b"\0\0"))
        else:
            p.append((0x5003, ul(be) + b"\1" + c["v"][0].encode("utf-16be") + b"\0\0"))
        if c["a"]:
            p.append(("a01c0004-ac96-9f50-6095-818547b111d4", self.refs([self.comment(x) for x in c["a"]])))
        return self.add("comment", p)

    def package(self, p):
        q = [(0x4401, self.ids[p["x"]])]
        for v in p["n"]:
            q.append((0x4402, self.text(v)))
        slots = []
        for s in p["s"]:
            t = [(0x4801, struct.pack(U32, s["id"])), (0x4b01, self.attr("SampleRate", s["r"])[1]), (0x4803, self.segment(s["g"]))]
            for v in s["n"]:
                t.append((0x4802, self.text(v)))
            for v in s["o"]:
                t.append((0x4b02, struct.pack(I64, int(v))))
            for v in s["p"]:
                t.append((0x4804, struct.pack(U32, v)))
            slots.append(self.add(s["k"], t))
        q.append((0x4403, self.refs(slots)))
        if p["c"]:
            q.append((0x4406, self.refs([self.comment(c) for c in p["c"]])))
        if p["d"]["k"] != "none":
            q.append((0x4701, self.desc(p["d"])))
        if p["m"]:
            q.append(("a01c0004-ac96-9f50-6095-818347b111d4", self.refs([self.comment(c) for c in p["m"]])))
        for tag, t in zip((0x4405, 0x4404), p["t"].split(",")):
            q.append((tag, struct.pack(">HBBBBBB", *([int(x) for x in t.split()] + [0]))))
        for u in p["u"]:
            q += [(0x4408, bytes.fromhex(u[0].replace("-", ""))), ("a0220060-94eb-75cb-96c4-69924f6211d3", struct.pack(I32, u[1]))]
        return self.add(p["k"], q)

    def ber(self, n):
        return bytes([n]) if n < 128 and self.r.random() < .5 else b"\x83" + struct.pack(">L", n)[1:] if n < 1 << 24 and self.r.random() < .5 else b"\x88" + struct.pack(">Q", n)

    def klv(self, key, v):
        return bytes.fromhex(key) + self.ber(len(v)) + v

    def write(self, path, pk, ids, label=bytes.fromhex("060e2b34040101010d01020101010900")):
        r = self.r
        self.ids = ids
        storage = self.add("storage", [(0x1901, self.refs([self.package(p) for p in pk]))])
        preface = self.add("preface", [(0x3b03, storage), (0x3b09, label)])
        if r.random() < .4:
            self.add("unknown", [(0x1234, b"abc")])
        if r.random() < .7:
            r.shuffle(self.sets)
        kag = r.choice([0, 1, 16, 256, 512])
        fill = lambda n: self.klv("060e2b34010101010301021001000000", bytes(n))
        prim = b"".join(struct.pack(">H", t) + bytes.fromhex(u.replace("-", "")) for u, t in self.tags.items())
        body = self.klv("060e2b34020501010d01020101050100", struct.pack(">LL", len(self.tags), 18) + prim)
        for kind, v in self.sets:
            body += self.klv("060e2b34025301010d0101010101%02x00" % SETS[kind], v)
            if r.random() < .05:
                body += fill(r.choice([0, 7, 300]))
        pack = lambda n: struct.pack(">HHLQQQQQLQL", 1, 2, kag, 0, 0, 0, n, 0, 0, 0, 0) + label + struct.pack(">LL", 0, 16)
        while True:
            head = self.klv("060e2b34020501010d01020101020400", pack(0))
            gap = -len(head) % kag if kag > 1 else 0
            if gap == 0 or gap > 40:
                break
            if kag == 16:
                kag = 1
        f = b""
        if gap:
            f = bytes.fromhex("060e2b34010101010301021001000000") + b"\x83" + struct.pack(">L", gap - 20)[1:] + bytes(gap - 20)
        tail = -len(body) % kag if kag > 1 else 0
        if tail:
            tail += kag if tail < 40 else 0
            while tail < 20:
                tail += kag
            body += bytes.fromhex("060e2b34010101010301021001000000") + b"\x83" + struct.pack(">L", tail - 20)[1:] + bytes(tail - 20)
        head = head[:len(head) - len(pack(0))] + pack(len(body))
        out = head + f + body
        out += self.klv("060e2b34020501010d01020101030400", pack(0))
        out += self.klv("060e2b34010201010d01030115010500", bytes(r.getrandbits(8) for _ in range(r.choice([0, 100, 5000]))))
        with open(path, "wb") as fp:
            fp.write(out)


class Run(object):
    def __init__(self, r):
        self.r = r
        self.dir = tempfile.mkdtemp(prefix="vf_med_")
        self.cwd = os.getcwd()
        self.file = os.path.join(self.dir, "a.aaf")
        self.f = aaf2.open(self.file, "w", sector_size=r.choice([512, 4096]))
        self.ids = {}                   # name -> bytes of the mob id
        self.names = {}                 # mob id -> name
        self.pool = []                  # packages
        self.files = []                 # (path, packages)
        self.mine = {}                  # mob name -> path it was linked from
        self.ev = []
        self.dead = False

    def close(self):
        os.chdir(self.cwd)
        try:
            self.f.manager.modified = {}
        except Exception:
            pass
        shutil.rmtree(self.dir, ignore_errors=True)

    def rec(self, ev, fn):
        r, v = outcome(fn)
        ev["r"] = r
        if r == "ok":
            if v == "none":
                ev["r"] = "none"
            elif v is not None:
                ev["v"] = v
        elif r == "err":
            ev["exc"] = outcome.last[-500:]
        else:
            self.dead = True
        self.ev.append(ev)
        return r == "ok"

    # ------------------------------------------------------------ generators
    def name(self):
        return self.r.choice(["clip", "A001C002", "\u00e9t\u00e9", "\u97f3 1", "a b", "x" * 40])

    def rate(self):
        return self.r.choice(["25/1", "24/1", "30000/1001", "24000/1001", "48000/1", "50/1", "60000/1001"])

    def num(self, lo=0):
        r = self.r
        return str(r.choice([lo, 1, 100, r.randint(0, 90000), 2 ** 31 + 5, 2 ** 40 + r.randint(0, 99), 2 ** 60 + 1]))

    def maybe(self, v, p=.9):
        return [v] if self.r.random() < p else []

    def newid(self):
        x = "P%d" % (len(self.ids) + 1)
        return self.know(x, bytes.fromhex("060a2b340101010501010d1013000000") + bytes(self.r.getrandbits(8) for _ in range(16)))

    def know(self, x, b):
        """b: as MXF keeps it"""
        self.ids[x] = b
        self.names[swapped(b).hex()] = x
        return x

    def clip(self, dd):
        r = self.r
        x = r.choice([""] + sorted(self.ids))
        return {"k": "clip", "dd": dd, "n": self.maybe(self.num()), "src": self.maybe(x), "slot": [0 if x == "" else r.randint(1, 9)], "at": self.maybe(self.num() if r.random() < .9 else "-5")}

    def segment(self, dd, depth=0, bad=0):
        r = self.r
        if bad and r.random() < .5:
            return {"k": "lost", "dd": dd}
        k = r.choice(["clip"] * 4 + ["fill", "scope", "tc", "pull", "group"]) if depth else r.choice(["seq"] * 4 + ["clip", "tc", "pull"])
        if depth > 2 and k in ("pull", "group"):
            k = "fill"
        n = self.maybe(self.num(), .92 if k in ("seq", "clip") else 0 if bad else 1)
        if n and r.random() < .08:
            n = ["-1"]
        if dd == "Timecode" and depth == 0 and r.random() < .6:
            k = "tc"
        g = {"k": k, "dd": dd, "n": n or ([] if k in ("seq", "clip") or bad else ["7"])}
        if k in ("seq", "group"):
            g["c"] = [self.segment(dd, depth + 1, bad and r.random() < .5) if k == "seq" else self.clip(dd) for _ in range(r.choice([0, 1, 1, 2, 4]))]
        elif k == "clip":
            g = self.clip(dd)
            if r.random() < .1 and depth == 0:
                g["dd"] = ""
        elif k == "tc":
            g.update({"fps": [r.choice(["24", "25", "30", "60"])], "drop": [r.choice("01")], "at": [self.num()]})
            if bad:
                g[r.choice(["fps", "drop", "at"])] = []
        elif k == "pull":
            g.update({"c": [self.segment(dd, depth + 1, bad)], "phase": [str(r.randint(0, 4))], "dir": r.choice(DIRECTIONS), "kind": r.choice(PULLDOWNS)})
        elif k == "scope":
            g.update({"scope": r.randint(0, 3), "slot": r.randint(0, 5)})
        return g

    def value(self, x):
        r = self.r
        how = ATTRS[x][1]
        return {"r": lambda: r.choice(["16/9", "4/3", "1920/1080"]) if x == "ImageAspectRatio" else self.rate(), "m": lambda: r.choice(["[42, 0]", "[21, 584]", "[0, 0]", "[1, -3]"]),
                "p": lambda: r.choice(["[[82, 8], [71, 8], [66, 8]]", "[[82, 10], [71, 10], [66, 10], [65, 10]]", "[[66, 16]]"]), "l": lambda: r.choice(LAYOUTS),
                "a": lambda: r.choice(["04010202-7103-0000-060e-2b340401010a", "04010202-0132-3001-060e-2b340401010a"]), I64: self.num}.get(
                    how, lambda: str(r.choice([1, 2, 8, 1080, 1920, r.randint(1, 32000)])))()

    def desc(self, ks, bad=0):
        r = self.r
        k = r.choice(ks)
        a = {"": ""}
        for x in OF[k]:
            a[x] = self.value(x)
        for x in MORE:
            if r.random() < .5:
                a[x] = self.value(x)
        if bad and OF[k]:
            del a[r.choice(OF[k])]
        for x in a:
            if ATTRS.get(x, "  ")[1] == "r":
                a[x] = ratio(Fraction(a[x]))
        d = {"k": k, "a": a, "fd": [], "loc": []}
        if k == "multi":
            d["fd"] = [self.desc(["cdci", "mpeg", "rgba", "pcm", "aes3", "sound", "anc"], bad and r.random() < .5) for _ in range(r.randint(1, 3))]
        if k != "tape" and r.random() < .3:
            d["loc"] = ["file:///media/%d.mxf" % i for i in range(r.randint(1, 2))]
        return d

    def comments(self, depth=0):
        r = self.r
        out = []
        for i in range(r.choice([0, 0, 1, 3]) if depth < 2 else 0):
            num = r.random() < .3
            v = [] if r.random() < .15 else [str(r.choice([0, -1, 2 ** 31 - 1, r.randint(-9999, 9999)])) if num else r.choice(["Camera", "", "\u00e9", "\u97f3", "x y"])]
            out.append({"n": "c%d" % i, "v": v, "i": int(num), "a": self.comments(depth + 1)})
        return out

    def time(self):
        r = self.r
        return "%d %d %d %d %d %d" % (r.randint(1990, 2040), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59))

    def package(self, k, bad=0):
        r = self.r
        where = r.random() < .5             # what is wrong: a segment, or the description
        p = {"k": k, "n": self.maybe(self.name(), .8), "c": self.comments(), "m": self.comments(), "t": self.time() + "," + self.time(),
             "u": self.maybe([r.choice(["0d010102-0101-0500-060e-2b3404010101", "0d010102-0101-0900-060e-2b3404010101"]), r.randint(-3, 9)], .4)}
        p["s"] = []
        for i in range(r.choice([0, 1, 2, 3, 5])):
            dd = r.choice(["Picture", "Sound", "Sound", "Timecode", "Data", "DescriptiveMetadata", "Edgecode"])
            p["s"].append({"k": r.choice(["timeline"] * 8 + ["static", "event"]), "id": (i + 1) * r.choice([1, 1, 10]) + i, "n": self.maybe(self.name(), .5), "r": self.rate(),
                           "o": self.maybe(self.num() if r.random() < .8 else "-25", .8), "p": self.maybe(r.randint(1, 9), .6), "g": self.segment(dd, 0, bad and where)})
        p["d"] = {"k": "none", "a": {"": ""}, "fd": [], "loc": []} if k == "master" else self.desc(sorted(OF), bad and not where)
        p["x"] = self.newid()
        return p

    # ------------------------------------------------------------ operations
    def mxf(self):
        r = self.r
        if self.files and r.random() < .3:
            path, pk = r.choice(self.files)
        else:
            pk = [self.package(r.choice(["master", "src"]), r.random() < .12) for _ in range(r.randint(1, 3))]
            for p in r.sample(self.pool, min(len(self.pool), r.choice([0, 0, 1, 2]))):
                pk.insert(r.randrange(len(pk) + 1), p)
            path = os.path.join(self.dir, "%s %d.%s" % (r.choice(["m", "a b", "\u00e9"]), len(self.files), r.choice(["mxf", "mxf", "MXF"])))
            Mxf(r).write(path, pk, self.ids)
            self.pool += [p for p in pk if p not in self.pool]
            self.files.append((path, pk))
        e = {"o": "mxf", "ama": int(r.random() < .6), "pk": pk}
        for p in pk:
            if not self.present(p["x"]):
                self.mine[p["x"]] = path

        def go():
            with contextlib.redirect_stdout(io.StringIO()):
                if e["ama"]:
                    mobs = self.f.content.create_ama_link(path, None)
                else:
                    mobs = mxf.MXFFile(path).link(self.f)
            return [self.names.get(bytes(m.mob_id.bytes_le).hex(), "?") for m in mobs]
        self.rec(e, go)

    def present(self, x):
        return any(bytes(m.mob_id.bytes_le) == swapped(self.ids[x]) for m in self.f.content.mobs)

    def chunks(self, kind):
        """a wave or aiff file: what is in it, and its bytes"""
        r = self.r
        le = kind == "wav"
        size = lambda n: struct.pack("<L" if le else ">L", n)
        rnd = lambda n: bytes(r.getrandbits(8) for _ in range(n))
        cs = []
        for _ in range(r.choice([0, 0, 1, 2])):
            cs.append((r.choice([b"LIST", b"bext", b"JUNK", b"NAME", b"FVER"]), rnd(r.choice([0, 1, 3, 10, 602]))))
        if r.random() < .9:
            cs.append((b"fmt " if le else b"COMM", rnd(r.choice([16, 18, 40]) if le else r.choice([18, 22, 24]))))
        if r.random() < .3:
            cs.append((b"fmt " if le else b"COMM", rnd(16)))
        cs.append((b"data" if le else b"SSND", rnd(r.choice([0, 9, 400]))))
        body = b"".join(i + size(len(b)) + b + b"\0" * (len(b) % 2) for i, b in cs)
        head, mark = (b"RIFF", b"WAVE") if le else (b"FORM", r.choice([b"AIFF", b"AIFC"]))
        if r.random() < .1:
            head = r.choice([b"RF64", b"FORX", b"JUNK"])
        elif r.random() < .1:
            mark = b"AVI "
        n = size(len(body) + 4)
        return ({"id": head.hex(), "n": n.hex(), "kind": mark.hex(), "c": [{"id": i.hex(), "n": size(len(b)).hex(), "b": b.hex()} for i, b in cs]}, head + n + mark + body)

    def media(self):
        r = self.r
        f = r.choice(["wav", "aiff", "mov", "mov", "mov", "mov", "other"])
        streams = []
        if f in ("wav", "aiff"):
            streams.append("audio")
        else:
            streams = [r.choice(["video", "audio", "audio", "data"]) for _ in range(r.choice([0, 1, 2, 2, 3, 5]))]
        if r.random() < .05:
            streams = [s for s in streams if s != "audio"]
        p = {"f": f, "s": [], "b": {"id": "", "n": "", "kind": "", "c": []}}
        probe = []
        for s in streams:
            if s == "video":
                w, h = r.choice([(1920, 1080), (720, 576), (1280, 720), (1998, 1080), (r.randint(16, 4000), r.randint(16, 3000))])
                codec = r.choice(["h264", "h264", "prores", "mjpeg", "mpeg4"])
                m = {"width": w, "height": h, "avg_frame_rate": r.choice(["25/1", "30000/1001", "24/1", "60/1"]), "nb_frames": self.num(1), "pix_fmt": r.choice(PIXELS), "codec_name": codec}
                if r.random() < .9:
                    m["profile"] = r.choice(PROFILES)
            elif s == "audio":
                m = {"sample_rate": r.choice(["48000", "44100", "96000"]), "duration_ts": int(self.num(1)), "channels": r.choice([1, 2, 2, 6]), "bit_rate": self.num(1)[:9], "sample_fmt": r.choice(SAMPLES),
                     "codec_name": "pcm"}
            else:
                m = {"codec_name": "bin_data"}
            need = [k for k in sorted(m) if k != "profile" and not (k == "codec_name" and (s != "video" or any(x["t"] == "video" for x in p["s"]))) and not (f in ("wav", "aiff") and k in ("bit_rate", "sample_fmt"))]
            if need and r.random() < .06:
                del m[r.choice(need)]
            a = {k: v if k == "channels" else str(v) for k, v in m.items()}
            for k in ("avg_frame_rate", "sample_rate"):
                if k in a:
                    a[k] = ratio(Fraction(a[k]))
            if s == "video":
                a["aspect"] = ratio(Fraction(w, h))
                a.setdefault("profile", "")
            else:
                a.setdefault("codec_name", "")
            p["s"].append({"t": s, "a": a})
            probe.append(dict(m, codec_type=s))
        meta = {"streams": probe, "format": {"format_name": {"wav": "wav", "aiff": "aiff", "mov": "mov,mp4,m4a,3gp,3g2,mj2"}.get(f, "ogg"),
                                             "format_long_name": "QuickTime / MOV" if f == "mov" else "Something"}}
        name = r.choice(["clip", "a b", "\u00e9t\u00e9", "x.1", "50%25", "#1", "q?x"])
        sub = os.path.join(self.dir, "d%d" % len(self.ev))
        os.mkdir(sub)
        path = os.path.join(sub, name + "." + (f if f != "other" else "ogg"))
        data = b""
        if f in ("wav", "aiff"):
            p["b"], data = self.chunks(f)
        with open(path, "wb") as fp:
            fp.write(data)
        given = path
        if r.random() < .25:
            os.chdir(self.dir)
            given = os.path.relpath(path)
        e = {"o": "media", "n": name, "p": p, "x": ["?", "?", "?"]}

        def go():
            mobs = self.f.content.create_ama_link(given, meta)
            if mobs is None:
                return "none"
            e["x"] = [self.know("L%d" % (len(self.ids) + 1), swapped(bytes(m.mob_id.bytes_le))) for m in mobs]
            for x in e["x"]:
                self.mine[x] = path
            return list(e["x"])
        self.rec(e, go)

    # ------------------------------------------------------------- observing
    def mobname(self, mid):
        b = bytes(mid.bytes_le)
        return self.names.get(b.hex(), "" if not any(b) else "?")

    def see_segment(self, s):
        t = type(s).__name__
        v = lambda k: s[k].value if k in s else None
        g = {"dd": s.media_kind, "n": opt(v("Length"))}
        if t in ("Sequence", "EssenceGroup"):
            g.update({"k": "seq" if t == "Sequence" else "group", "c": [self.see_segment(c) for c in (v("Components" if t == "Sequence" else "Choices") or [])]})
        elif t == "SourceClip":
            g.update({"k": "clip", "src": opt(v("SourceID"), self.mobname), "slot": opt(v("SourceMobSlotID"), int), "at": opt(v("StartTime"))})
        elif t == "Timecode":
            g.update({"k": "tc", "fps": opt(v("FPS")), "drop": opt(v("Drop"), lambda x: str(int(x))), "at": opt(v("Start"))})
        elif t == "Pulldown":
            g.update({"k": "pull", "c": [self.see_segment(v("InputSegment"))], "phase": opt(v("PhaseFrame")), "dir": v("PulldownDirection"), "kind": v("PulldownKind")})
        elif t == "ScopeReference":
            g.update({"k": "scope", "scope": v("RelativeScope"), "slot": v("RelativeSlot")})
        elif t == "Filler":
            g["k"] = "fill"
        else:
            g["k"] = t
        return g

    def see_attr(self, x, v):
        if ATTRS.get(x, "  ")[1] == "r" or x == "SampleRate":
            return ratio(v)
        if x == "PixelLayout":
            names = {"CompRed": 82, "CompGreen": 71, "CompBlue": 66, "CompAlpha": 65}
            return json.dumps([[names.get(i["Code"], i["Code"]), i["Size"]] for i in v if i["Code"] not in ("CompNone", "CompNull", 0)])
        if x == "VideoLineMap":
            return json.dumps([int(i) for i in v])
        if x == "Summary":
            return bytes(v).hex()
        return str(v)

    def see_desc(self, d, mine):
        if d is None:
            return {"k": "none", "a": {"": ""}, "fd": [], "loc": [], "g": []}
        k = {"CDCIDescriptor": "cdci", "RGBADescriptor": "rgba", "PCMDescriptor": "pcm", "ANCDataDescriptor": "anc", "MultipleDescriptor": "multi", "TapeDescriptor": "tape",
             "ImportDescriptor": "import", "WAVEDescriptor": "wave", "AIFCDescriptor": "aifc"}.get(d.classdef.class_name, d.classdef.class_name)
        a = {"": ""}
        for x in list(ATTRS) + ["Summary"]:
            if x in d and d[x].value is not None:
                a[x] = self.see_attr(x, d[x].value)
        loc = set()
        for n in (d["Locator"].value if "Locator" in d else []):
            u = n["URLString"].value
            own = mine and (u == "file://" + mine or unquote(u) == "file://" + mine)
            loc.add("self" if own else u)
        g = []
        if "ContainerFormat" in d:
            g.append(d["ContainerFormat"].value.name.replace("ContainerDef_", ""))
        if "MediaContainerGUID" in d:
            u = str(d["MediaContainerGUID"].value)
            g.append({"60eb8921-2a02-4406-891c-d9b6a6ae0645": "MXF", "b22697a2-3442-44e8-bb8f-7a1cd290ebf1": "Generic"}.get(u, u))
        return {"k": k, "g": g, "a": a, "fd": [self.see_desc(x, mine) for x in d["FileDescriptors"].value] if k == "multi" else [], "loc": sorted(loc)}

    def see_comment(self, t):
        a = [self.see_comment(x) for x in t["TaggedValueAttributeList"].value] if "TaggedValueAttributeList" in t else []
        return {"n": t.name, "v": [str(t.value)], "a": a}

    def see_mob(self, m):
        x = self.mobname(m.mob_id)
        times = ["%d %d %d %d %d %d" % (t.year, t.month, t.day, t.hour, t.minute, t.second) for t in (m["CreationTime"].value, m["LastModified"].value)]
        slots = []
        for s in m.slots:
            v = lambda k: s[k].value if k in s else None
            slots.append({"id": s.slot_id, "n": opt(v("SlotName") or None), "r": ratio(v("EditRate")), "o": opt(v("Origin")), "p": opt(v("PhysicalTrackNumber"), int), "g": self.see_segment(s.segment)})
        return {"k": {"MasterMob": "master", "SourceMob": "src"}.get(type(m).__name__, "?"), "n": opt(m.name), "s": slots,
                "c": [self.see_comment(c) for c in m["UserComments"].value] if "UserComments" in m else [],
                "d": self.see_desc(m.descriptor if type(m).__name__ == "SourceMob" else None, self.mine.get(x)),
                "m": [self.see_comment(c) for c in m["MobAttributeList"].value] if "MobAttributeList" in m else [],
                "u": [[USAGES.get(str(m["UsageCode"].value), str(m["UsageCode"].value)) if "UsageCode" in m else "", m["AppCode"].value if "AppCode" in m else ""]] if "UsageCode" in m or "AppCode" in m else [],
                "t": "" if x[:1] == "L" else ",".join(times)}

    def see(self, e):
        e["obs"] = dict((self.mobname(m.mob_id), self.see_mob(m)) for m in self.f.content.mobs)
        e["obs"][""] = 0
        e["n"] = len(list(self.f.content.mobs))

    def look(self):
        e = {"o": "look"}
        self.rec(e, lambda: self.see(e))

    def reopen(self):
        e = {"o": "reopen"}

        def go():
            self.f.close()
            self.f = aaf2.open(self.file, "rw")
            self.see(e)
        if not self.rec(e, go):
            self.dead = True

    def pattern(self):
        r = self.r
        b = bytes([6, 14, 43, 52, 4, 1, 1, r.choice([1, 1, 2, 3, 3, 4, 0]), 13, 1, 2, r.choice([1, 1, 1, 2]), r.choice([1, 2, 3, 4, 16, 17, 0]), r.choice([1, 2, 3, 4, 0]), r.randrange(16), 0])
        path = os.path.join(self.dir, "op.mxf")
        Mxf(r).write(path, [], {}, b)
        self.rec({"o": "pattern", "b": list(b)}, lambda: mxf.MXFFile(path).operation_pattern or "")

    def step(self):
        x = self.r.random()
        if x < .08:
            self.pattern()
        elif x < .5:
            self.media()
        elif x < .92:
            self.mxf()
        else:
            self.look()


def history(r, steps, label):
    run = Run(r)
    try:
        for _ in range(steps):
            run.step()
            if run.dead:
                break
        else:
            run.look()
            run.reopen()
        return {"init": {}, "ev": run.ev, "label": label}
    finally:
        run.close()


def histories(c, n, steps, salt):
    return c.sharded(lambda i: history(rng(salt, i), steps, "%s %d" % (salt, i)), range(n))
