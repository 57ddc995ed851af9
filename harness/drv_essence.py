"""Essence: runs histories of imports and exports on the code for spec/TraceEssence.tla.

The shadow state (self.m) only picks operands; what holds is decided by the specification."""
from common import *
import struct
import aaf2
from aaf2.rational import AAFRational
from fractions import Fraction
from drv_obj import mobid_of, tok_of

HD = {1235: 917504, 1237: 606208, 1238: 917504, 1241: 917504, 1242: 606208, 1243: 917504, 1244: 606208, 1250: 458752, 1251: 458752, 1252: 303104, 1253: 188416,
      1256: 1835008, 1258: 212992, 1259: 417792, 1260: 835584}
HR = {1270: 57344, 1271: 28672, 1272: 28672, 1273: 18944, 1274: 5888}
COMPRESSION = dict(("04010202-71%02x-0000-060e-2b340401010%s" % (cid - 1234, "a" if cid in HD else "d"), cid) for cid in sorted(HD) + sorted(HR))
RATES = [([25, 1], [25, "25", AAFRational(25, 1), 25.0]), ([30000, 1001], [AAFRational(30000, 1001), "30000/1001"]), ([24, 1], [24, "24/1"]),
         ([2997, 100], [29.97]), ([50, 1], [50]), ([48000, 1], [48000])]


def ratio(v):
    f = Fraction(v.numerator, v.denominator)
    return [f.numerator, f.denominator]


class Run(object):
    def __init__(self, r):
        self.r = r
        self.dir = tempfile.mkdtemp(prefix="vf_ess_")
        self.f = {}
        for fn in "AB":
            self.f[fn] = aaf2.open(self.path(fn), "w", sector_size=r.choice([512, 4096]))
        self.src = {}                   # name -> bytes of a media file
        self.m = {"A": {}, "B": {}}     # mobs: name -> kind
        self.names = {}                 # mob id -> name
        self.ev = []
        self.n = 0
        self.dead = False

    def path(self, fn):
        return os.path.join(self.dir, fn + ".aaf")

    def close(self):
        for f in self.f.values():
            try:
                f.manager.modified = {}
            except Exception:
                pass
        shutil.rmtree(self.dir, ignore_errors=True)

    def rec(self, ev, fn):
        r, v = outcome(fn)
        ev["r"] = r
        if r == "ok":
            if v is not None:
                ev["v"] = v
        elif r == "err":
            ev["exc"] = outcome.last[-500:]
        else:
            self.dead = True
        self.ev.append(ev)
        return r == "ok"

    # --------------------------------------------------------------- media
    def bytes(self, n):
        return bytearray(self.r.randbytes(n).replace(b"\0", b"\1"))

    def write(self, data):
        self.n += 1
        name = "s%d" % self.n
        self.src[name] = bytes(data)
        with open(os.path.join(self.dir, name), "wb") as f:
            f.write(data)
        return name

    def wave(self):
        r = self.r
        ch, rate, bits = r.choice([1, 1, 2, 6]), r.choice([8000, 44100, 48000, 48000, 96000]), r.choice([16, 24, 24, 20])
        w = (bits + 7) // 8
        n = r.choice([0, 11, 100, r.randint(8, 3000), r.randint(8, 3000), rate // 25 * r.randint(1, 4), 8008 * r.randint(1, 3)] + [8000, 8001, 20000] * (rate == 8000))
        ext = r.random() < .3
        fmt = struct.pack("<HHLLHH", 0xFFFE if ext else 1, ch, rate, rate * ch * w, ch * w, bits)
        if ext:
            fmt += struct.pack("<HHL", 22, bits, 3) + b"\x01\0\0\0\0\0\x10\0\x80\0\0\xaa\0\x38\x9b\x71"
        chunks = b""
        if r.random() < .3:
            x = self.bytes(r.choice([3, 10, 25]))
            chunks += b"LIST" + struct.pack("<L", len(x)) + x + b"\0" * (len(x) % 2)
        chunks += b"fmt " + struct.pack("<L", len(fmt)) + fmt
        if r.random() < .2:
            chunks += b"fact" + struct.pack("<LL", 4, n)
        data = self.bytes(n * ch * w)
        at = 12 + len(chunks) + 8
        chunks += b"data" + struct.pack("<L", len(data)) + data + b"\0" * (len(data) % 2)
        if r.random() < .2:
            chunks += b"junk" + struct.pack("<L", 4) + b"abcd"
        name = self.write(b"RIFF" + struct.pack("<L", 4 + len(chunks)) + b"WAVE" + chunks)
        return {"k": "wav", "f": name, "ch": ch, "rate": rate, "bits": w * 8, "n": n, "at": at}

    def dnx_frame(self, cid, w, h, bd, il, size):
        d = self.bytes(size)
        d[0:5] = b"\0\0\x02\x80\x01" if cid in HD else b"\0\0" + struct.pack(">H", self.r.choice([0x280, 0x1000, 0x2170])) + b"\x03"
        d[5:6] = bytes([self.r.choice([1, 1, 4]) | (2 if il else 0)])
        d[24:28] = struct.pack(">hh", h, w)
        d[33] = {8: 1, 10: 2, 12: 3}[bd] << 5 | self.r.choice([0, 8])
        d[40:44] = struct.pack(">i", cid)
        d[44] = self.r.choice([1, 0x80, 0x3f])
        return d

    def dnx(self, bad=0):
        r = self.r
        cid = r.choice(sorted(HR) * 3 + [1253, 1258] * 2 + sorted(HD))
        w, h = r.choice([(16, 16), (96, 54), (960, 540), (1280, 720), (1279, 717), (480, 270)])
        if cid in (1270, 1271) or r.random() < .1:
            w, h = 256, 136
        bd, il = r.choice([8, 10, 12]), r.choice([0, 0, 1])
        size = HD.get(cid) or max(8192, (((h + 15) // 16) * ((w + 15) // 16) * HR[cid] // 255 + 2048) // 4096 * 4096)
        n = r.randint(1, 1 if size > 400000 else 2 if size > 100000 else 4)
        fr = [self.dnx_frame(cid, w, h, bd, il, size) for _ in range(n)]
        if bad:
            how = r.choice(["first", "later", "depth", "cid", "444"])
            if how == "first":
                fr[0][4] = 9
            elif how == "depth":
                fr[0][33] = 0xff
            elif how == "cid":
                fr[-1][40:44] = struct.pack(">i", r.choice([1234, 1275, 0]))
            elif how == "444":
                fr[-1][44] |= 0x40
            else:
                fr.append(self.bytes(size))
        return {"k": "dnx", "f": self.write(b"".join(fr)), "w": w, "h": h, "bd": bd, "il": il, "cid": "c%d" % cid, "n": n}

    def raw(self):
        r = self.r
        lay = r.choice([[("CompRed", 8), ("CompGreen", 8), ("CompBlue", 8)], [("CompAlpha", 8), ("CompRed", 8), ("CompGreen", 8), ("CompBlue", 8)],
                        [("CompRed", 10), ("CompGreen", 10), ("CompBlue", 10), ("CompFill", 2)], [("CompRed", 10), ("CompGreen", 10), ("CompBlue", 11)], [("CompPalette", 16)]])
        bits = sum(s for _, s in lay)
        w, h = r.choice([(10, 10), (64, 32), (64, 64), (33, 7), (128, 96)])
        n = r.choice([0, 1, 2, 5])
        size = (bits * w * h + 7) // 8
        return {"k": "raw", "f": self.write(self.bytes(size * n)), "w": w, "h": h, "bits": bits, "n": n}, [{"Code": c, "Size": s} for c, s in lay]

    def badwave(self):
        r = self.r
        how = r.choice(["text", "tag", "width", "short", "empty"])
        if how == "text":
            return self.write(b"this is no wave file, not at all" * 3)
        if how == "empty":
            return self.write(b"")
        tag, bits = {"tag": (85, 16), "width": (1, r.choice([8, 32])), "short": (1, 16)}[how]
        fmt = struct.pack("<HHLLHH", tag, 1, 48000, 48000 * bits // 8, bits // 8, bits)
        d = b"RIFF" + struct.pack("<L", 100) + b"WAVEfmt " + struct.pack("<L", 16) + fmt
        return self.write(d[:30] if how == "short" else d + b"data" + struct.pack("<L", 16) + bytes(16))

    # ---------------------------------------------------------- projection
    def runs(self, data):
        """data as runs of the media files"""
        out, p = [], 0

        def put(s, a, n):
            if out and out[-1]["s"] == s and (s == "" or out[-1]["a"] + out[-1]["n"] == a):
                out[-1]["n"] += n
            else:
                out.append({"s": s, "a": a, "n": n})
        while p < len(data):
            if data[p:p + 8].count(0) == len(data[p:p + 8]):
                n = len(data) - p - len(data[p:].lstrip(b"\0"))
                put("", 0, n)
                p += n
                continue
            best = None
            for s, d in self.src.items():
                a, tries = d.find(data[p:p + 12]), 0
                while a >= 0 and tries < 40:
                    lo, hi = min(12, len(data) - p), min(len(d) - a, len(data) - p)
                    while lo < hi:
                        m = (lo + hi + 1) // 2
                        if d[a:a + m] == data[p:p + m]:
                            lo = m
                        else:
                            hi = m - 1
                    if best is None or lo > best[2]:
                        best = (s, a, lo)
                    a, tries = d.find(data[p:p + 12], a + 1), tries + 1
            if best is None:
                put("?", p, len(data) - p)
                break
            put(*best)
            p += best[2]
        return out

    def name(self, mid):
        if mid is None or mid.int == 0:
            return ""
        return self.names.get(str(mid), str(mid))

    def see_mob(self, m):
        k = "src" if type(m).__name__ == "SourceMob" else "master"
        slots = []
        for s in m.slots:
            g = s.segment
            if type(g).__name__ == "Timecode":
                g = {"m": "tc", "s": g.fps, "b": g.start or 0}
            else:
                g = {"m": self.name(g.mob_id), "s": g.slot_id or 0, "b": g.start or 0}
            slots.append([s.slot_id, {"r": ratio(s.edit_rate), "n": s.length, "g": g}])
        return {"k": k, "d": self.see_desc(m), "s": slots}

    def see_desc(self, m):
        d = m.descriptor if type(m).__name__ == "SourceMob" else None
        if d is None:
            return {"k": ""}
        v = lambda n: -1 if d[n].value is None else d[n].value
        i = lambda n: Fraction(v(n).numerator, v(n).denominator)
        t = type(d).__name__
        if t == "TapeDescriptor":
            return {"k": "tape"}
        if t == "PCMDescriptor":
            rates = {i("SampleRate"), i("AudioSamplingRate")}
            return {"k": "pcm", "ch": v("Channels"), "rate": int(rates.pop()) if len(rates) == 1 else -1, "bits": v("QuantizationBits"), "align": v("BlockAlign"),
                    "bps": v("AverageBPS"), "n": v("Length")}
        if t == "CDCIDescriptor":
            return {"k": "dnx", "w": v("StoredWidth"), "h": v("StoredHeight"), "bd": v("ComponentWidth"), "lay": str(v("FrameLayout")),
                    "cid": "c%s" % COMPRESSION.get(str(v("Compression")), v("Compression")), "fs": v("FrameSampleSize"), "n": v("Length"), "rate": ratio(v("SampleRate"))}
        return {"k": "raw", "w": v("StoredWidth"), "h": v("StoredHeight"), "fs": v("FrameSampleSize"), "n": v("Length"), "size": v("ImageSize"), "rate": ratio(v("SampleRate"))}

    def see(self, e):
        o = {}
        for fn in "AB":
            c = self.f[fn].content
            o[fn] = {"m": dict((self.name(m.mob_id), self.see_mob(m)) for m in c.mobs),
                     "e": dict((self.name(x.mob_id), self.runs(x.open("r").read())) for x in c.essencedata)}
        e["obs"] = o

    # ----------------------------------------------------------- operations
    def mob(self, fn, x):
        for m in self.f[fn].content.mobs:
            if self.name(m.mob_id) == x:
                return m
        raise KeyError(x)

    def newmob(self, fn, cls, k):
        self.n += 1
        x = "M%d" % self.n

        def go():
            m = getattr(self.f[fn].create, cls)(x)
            self.names[str(m.mob_id)] = x
            self.f[fn].content.mobs.append(m)
            return None
        if self.rec({"o": "mob", "f": fn, "x": x, "k": k}, go):
            self.m[fn][x] = k
        return x

    def step(self):
        r = self.r
        fn = r.choice("AAB")
        ms = self.m[fn]
        k = r.choice(["impm"] * 4 + ["imps"] * 4 + ["tape"] * (r.random() < .4) + ["export"] * 3 + ["read"] * 2 + ["look"] * 2 + ["remove"] * (len(ms) > 3) + ["copy"] + ["reopen"] * (r.random() < .5))
        e = {"o": k, "f": fn}
        if k in ("impm", "imps"):
            return self.imp(e, fn, k)
        if k == "tape":
            self.n += 1
            x = e["x"] = "T%d" % self.n
            e["er"], er = self.rate()
            e["len"], e["fps"] = r.randint(1, 5000), r.choice([24, 25, 30])

            def go():
                m = self.f[fn].create.SourceMob()
                self.names[str(m.mob_id)] = x
                m.create_tape_slots(x, er, e["fps"], r.random() < .3, "picture", e["len"])
                self.f[fn].content.mobs.append(m)
            if self.rec(e, go):
                ms[x] = "tape"
        elif k in ("look", "reopen"):
            return self.look() if k == "look" else self.reopen()
        else:
            xs = sorted(x for x in ms if k in ("remove", "copy") or ms[x] != "master")
            if not xs:
                return
            x = e["x"] = r.choice(xs)
            if k == "export":
                out = os.path.join(self.dir, "out.wav")

                def go():
                    self.mob(fn, x).export_audio(out)
                    return self.parse(open(out, "rb").read())
                self.rec(e, go)
            elif k == "read":
                def go():
                    s = self.mob(fn, x).essence.open("r")
                    data = b""
                    while True:
                        d = s.read(r.choice([1000, 8192, 100000]))
                        if not d:
                            return self.runs(data)
                        data += d
                self.rec(e, go)
            elif k == "remove":
                def go():
                    m = self.mob(fn, x)
                    c = self.f[fn].content
                    if m.mob_id in c.essencedata:
                        c.essencedata.pop(m.mob_id)
                    c.mobs.pop(m.mob_id)
                if self.rec(e, go):
                    del ms[x]
            else:
                g = e["g"] = "B" if fn == "A" else "A"
                if x in self.m[g]:
                    return

                def go():
                    m = self.mob(fn, x)
                    es = self.f[fn].content.essencedata.get(m.mob_id)
                    c = self.f[g].content
                    c.mobs.append(m.copy(root=self.f[g]))
                    if es is not None:
                        c.essencedata.append(es.copy(root=self.f[g]))
                if self.rec(e, go):
                    self.m[g][x] = ms[x]

    def look(self):
        e = {"o": "look"}
        self.rec(e, lambda: self.see(e))

    def rate(self):
        er, forms = self.r.choice(RATES)
        return er, self.r.choice(forms)

    def imp(self, e, fn, k):
        r = self.r
        f = self.f[fn]
        kind = r.choice(["wav", "wav", "dnx"] + ["raw"] * (k == "imps"))
        e["good"] = good = int(r.random() > .15 or kind == "raw")
        e["er"], er = self.rate()
        e["off"] = int(r.random() < .15 and kind != "raw")
        lay = None
        if kind == "raw":
            e["src"], lay = self.raw()
        elif good:
            e["src"] = self.wave() if kind == "wav" else self.dnx()
        elif r.random() < .3:
            e["src"] = {"k": kind, "f": "missing"}
        else:
            e["src"] = {"k": "wav", "f": self.badwave()} if kind == "wav" else self.dnx(1) if r.random() < .7 else {"k": "dnx", "f": self.write(b"")}
        if kind == "wav" and r.random() < .3:
            e["er"], er = [0, 1], None
        elif kind == "dnx" and e["er"] == [48000, 1]:
            e["er"], er = [25, 1], 25
        e["len"] = r.choice([0, 0, 0, r.randint(1, 500)])
        tapes = sorted(x for x in self.m[fn] if self.m[fn][x] == "tape")
        e["tape"] = {"m": "", "s": 0, "b": 0}
        tape = None
        if tapes and r.random() < .5:
            t = r.choice(tapes)
            e["tape"] = {"m": t, "s": 1, "b": r.choice([0, r.randint(1, 9000)])}
            tape = self.mob(fn, t).create_source_clip(1, e["tape"]["b"])
        path = os.path.join(self.dir, e["src"]["f"])
        args = {"length": e["len"] or None, "offline": bool(e["off"])}
        if tape is not None:
            args["tape"] = tape
        if k == "imps":
            xs = [x for x in self.m[fn] if self.m[fn][x] == "new"]
            x = e["x"] = xs[0] if xs else self.newmob(fn, "SourceMob", "src")
            self.m[fn][x] = "new"

            def go():
                m = self.mob(fn, x)
                if kind == "raw":
                    m.import_rawvideo_essence(path, er, e["src"]["w"], e["src"]["h"], lay, tape)
                elif kind == "wav":
                    m.import_audio_essence(path, er, **args)
                else:
                    m.import_dnxhd_essence(path, er, **args)
            if self.rec(e, go):
                self.m[fn][x] = "src"
        else:
            xs = sorted(x for x in self.m[fn] if self.m[fn][x] == "master")
            x = e["x"] = r.choice(xs) if xs and r.random() < .7 else self.newmob(fn, "MasterMob", "master")
            self.n += 1
            y = e["y"] = "M%d" % self.n

            def go():
                m = self.mob(fn, x)
                s = m.import_audio_essence(path, er, **args) if kind == "wav" else m.import_dnxhd_essence(path, er, **args)
                self.names[str(s.segment.mob_id)] = y
            if self.rec(e, go):
                self.m[fn][y] = "src"

    def parse(self, d):
        """a wave file"""
        if d[:4] != b"RIFF" or d[8:12] != b"WAVE" or struct.unpack("<L", d[4:8])[0] != len(d) - 8:
            return {"bad": "header"}
        p, out = 12, {}
        while p + 8 <= len(d):
            n = struct.unpack("<L", d[p + 4:p + 8])[0]
            if d[p:p + 4] == b"fmt ":
                tag, ch, rate, bps, align, bits = struct.unpack("<HHLLHH", d[p + 8:p + 24])
                if tag != 1 or align != ch * bits // 8 or bps != align * rate:
                    return {"bad": "format"}
                out.update({"ch": ch, "rate": rate, "bits": bits})
            elif d[p:p + 4] == b"data":
                if p + 8 + n > len(d):
                    return {"bad": "data"}
                out["data"] = self.runs(d[p + 8:p + 8 + n])
            p += 8 + n + n % 2
        return out

    def reopen(self):
        # a source mob needs a description
        for fn in "AB":
            for x in sorted(self.m[fn]):
                if self.m[fn][x] == "new":
                    if self.rec({"o": "remove", "f": fn, "x": x}, lambda: self.f[fn].content.mobs.pop(self.mob(fn, x).mob_id) and None):
                        del self.m[fn][x]
        e = {"o": "reopen"}

        def go():
            for fn in "AB":
                self.f[fn].close()
                self.f[fn] = aaf2.open(self.path(fn), "rw")
            self.see(e)
        if not self.rec(e, go):
            self.dead = True


def history(r, steps, label):
    run = Run(r)
    try:
        for _ in range(steps):
            run.step()
            if run.dead:
                break
        else:
            run.reopen()
        return {"init": {}, "ev": run.ev, "label": label}
    finally:
        run.close()


def histories(c, n, steps, salt):
    return c.sharded(lambda i: history(rng(salt, i), steps, "%s %d" % (salt, i)), range(n))
