"""Independent reader of a compound-file byte image (MS-CFB layout), written from the format
and sharing no code with /repo. It only projects; spec/CFBImage.tla judges."""
import struct

DIF, FAT, EOC, FREE = 0xFFFFFFFC, 0xFFFFFFFD, 0xFFFFFFFE, 0xFFFFFFFF
NOSTREAM = 0xFFFFFFFF


class Bad(Exception):
    pass


def ivals(ids):
    """sorted ids -> [[start, n], ...] maximal intervals"""
    out = []
    for i in ids:
        if out and out[-1][0] + out[-1][1] == i:
            out[-1][1] += 1
        else:
            out.append([i, 1])
    return out


def extents(chain):
    """chain order -> [[start, n], ...] runs of consecutive sectors (unsorted)"""
    return ivals(chain)


class Image(object):
    """f: random access reader with seek/read; size: file length"""

    def __init__(self, f, size):
        self.f, self.size = f, size
        self.err = ""
        try:
            self.parse()
        except Bad as e:
            self.err = str(e)

    def sect(self, sid):
        self.f.seek((sid + 1) * self.ss)
        d = self.f.read(self.ss)
        if len(d) < self.ss:
            d = bytes(d) + b"\0" * (self.ss - len(d))
        return d

    def chain(self, table, start, what):
        out = []
        seen = set()
        sid = start
        if sid in (EOC, FREE):
            return out
        while sid != EOC:
            if sid >= len(table):
                raise Bad("%s chain leaves the table" % what)
            if sid in seen:
                raise Bad("%s chain is cyclic" % what)
            seen.add(sid)
            out.append(sid)
            sid = table[sid]
            if sid in (FREE, FAT, DIF):
                raise Bad("%s chain runs into a free or reserved sector" % what)
        return out

    def parse(self):
        self.f.seek(0)
        h = self.f.read(512)
        if len(h) < 512:
            raise Bad("header truncated")
        if h[:8] != b"\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1":
            raise Bad("magic")
        (self.minor, self.major, bo, sshift, mshift) = struct.unpack_from("<5H", h, 24)
        if bo != 0xFFFE:
            raise Bad("byte order")
        self.ss = 1 << sshift
        self.ms = 1 << mshift
        if self.ss not in (512, 4096) or self.ms != 64:
            raise Bad("sector sizes")
        (self.dirc, self.fatc, self.dirstart, self.txn, self.cutoff, self.mfstart, self.mfc,
         self.difstart, self.difc) = struct.unpack_from("<9I", h, 40)
        if self.cutoff != 4096:
            raise Bad("mini stream cutoff")
        difat = list(struct.unpack_from("<109I", h, 76))
        per = self.ss // 4
        # difat chain
        self.difsects = []
        sid = self.difstart
        n = 0
        while n < self.difc:
            if sid in (EOC, FREE):
                raise Bad("difat chain shorter than the header says")
            if sid in self.difsects:
                raise Bad("difat chain is cyclic")
            self.difsects.append(sid)
            t = struct.unpack("<%dI" % per, self.sect(sid))
            difat.extend(t[:-1])
            sid = t[-1]
            n += 1
        if self.difc and sid not in (EOC, FREE):
            raise Bad("difat chain longer than the header says")
        self.fatsects = [s for s in difat if s != FREE]
        k = len(self.fatsects)
        if any(s != FREE for s in difat[k:]):
            raise Bad("hole in the difat")
        fat = []
        for s in self.fatsects:
            if s > 0xFFFFFFFA:
                raise Bad("bad fat sector id")
            fat.extend(struct.unpack("<%dI" % per, self.sect(s)))
        self.fat = fat
        self.dirchain = self.chain(fat, self.dirstart, "directory")
        self.mfchain = self.chain(fat, self.mfstart, "mini fat")
        mfat = []
        for s in self.mfchain:
            mfat.extend(struct.unpack("<%dI" % per, self.sect(s)))
        self.mfat = mfat
        # directory entries
        self.entries = []
        raw = b"".join(self.sect(s) for s in self.dirchain)
        for i in range(len(raw) // 128):
            e = raw[i * 128:(i + 1) * 128]
            nl, typ, color, l, r, c = struct.unpack_from("<HBBIII", e, 64)
            cls = e[80:96]
            flags, ct, mt, start = struct.unpack_from("<IQQI", e, 96)
            size = struct.unpack_from("<Q", e, 120)[0]
            nm = e[:64].decode("utf-16le", "replace").split("\0")[0]
            self.entries.append(dict(id=i, type=typ, color=color, left=l, right=r, child=c, cls=cls,
                                     flags=flags, ct=ct, mt=mt, start=start, size=size, name=nm, nl=nl))
        if not self.entries or self.entries[0]["type"] != 5:
            raise Bad("no root entry")
        root = self.entries[0]
        self.ministream = self.chain(fat, root["start"], "mini stream") if root["size"] or root["start"] not in (0, EOC, FREE) else []
        self.minisize = root["size"]
        self.stream_chain = {}
        for e in self.entries:
            if e["type"] == 2:
                mini = e["size"] < self.cutoff
                if e["size"] == 0 and e["start"] in (0, FREE, EOC):
                    self.stream_chain[e["id"]] = (mini, [])
                else:
                    self.stream_chain[e["id"]] = (mini, self.chain(mfat if mini else fat, e["start"], "stream"))

    # --------------------------------------------------------- projections
    def tree(self, runs, classes=lambda b: 0):
        """[{p, k, d, c, m}] by following the sibling trees; needs err == ''"""
        from common import rle
        out = []
        stack = [(0, ())]
        count = 0
        while stack:
            i, path = stack.pop()
            e = self.entries[i]
            count += 1
            if count > len(self.entries) + 5:
                raise Bad("directory tree is cyclic")
            out.append((i, path, e))
            kids = []
            st = [e["child"]]
            while st:
                x = st.pop()
                if x == NOSTREAM:
                    continue
                if x >= len(self.entries):
                    raise Bad("sibling id out of range")
                kids.append(x)
                if len(kids) > len(self.entries):
                    raise Bad("sibling tree is cyclic")
                st.append(self.entries[x]["left"])
                st.append(self.entries[x]["right"])
            for x in kids:
                stack.append((x, path + (self.entries[x]["name"],)))
        res = []
        for i, path, e in out:
            d = []
            if e["type"] == 2:
                d = rle(self.content(i)) if runs else []
            res.append({"p": list(path), "pp": list(path), "k": "s" if e["type"] == 2 else "d", "d": d,
                        "c": classes(e["cls"]), "m": [e["flags"], e["ct"], e["mt"]] if path else [0, 0, 0]})
        return res

    def content(self, i):
        e = self.entries[i]
        mini, chain = self.stream_chain[i]
        if not mini:
            b = b"".join(self.sect(s) for s in chain)
        else:
            out = []
            for m in chain:
                pos = m * 64
                k = pos // self.ss
                if k >= len(self.ministream):
                    raise Bad("mini sector outside the mini stream")
                self.f.seek((self.ministream[k] + 1) * self.ss + pos % self.ss)
                d = self.f.read(64)
                out.append(d + b"\0" * (64 - len(d)))
            b = b"".join(out)
        if len(b) < e["size"]:
            raise Bad("stream chain shorter than its size")
        return b[:e["size"]]

    def alloc(self):
        """What spec/CFBImage.tla judges about sectors."""
        if self.err:
            return {"err": self.err}
        claims = []

        def claim(owner, chain):
            for s, n in extents(chain):
                claims.append([s, n, owner])
        claim("dir", self.dirchain)
        claim("minifat", self.mfchain)
        claim("ministream", self.ministream)
        claim("fat", self.fatsects)
        claim("difat", self.difsects)
        mclaims = []
        streams = []
        for i in sorted(self.stream_chain):
            mini, ch = self.stream_chain[i]
            e = self.entries[i]
            if mini:
                mclaims.extend([s, n, "s%d" % i] for s, n in extents(ch))
            else:
                claim("s%d" % i, ch)
            streams.append([limb(e["size"])[0], limb(e["size"])[1], len(ch), 1 if mini else 0])
        rl = 0
        R = 0x7FFFFF00 // 4096 - 1
        if self.ss == 4096 and len(self.fat) > R:
            rl = 2 if self.fat[R] == EOC else 1
        return {
            "err": "", "ss": self.ss, "nsect": max(0, (self.size + self.ss - 1) // self.ss - 1), "fatlen": len(self.fat),
            "dirc": self.dirc, "fatc": self.fatc, "mfc": self.mfc, "difc": self.difc,
            "ndir": len(self.dirchain), "nfat": len(self.fatsects), "nmf": len(self.mfchain), "ndif": len(self.difsects),
            "nmini": len(self.ministream), "minisize": self.minisize, "mfatlen": len(self.mfat),
            "claims": sorted(claims), "mclaims": sorted(mclaims),
            "used": ivals([i for i, v in enumerate(self.fat) if v != FREE]),
            "mused": ivals([i for i, v in enumerate(self.mfat) if v != FREE]),
            "fatmark": ivals([i for i, v in enumerate(self.fat) if v == FAT]),
            "difmark": ivals([i for i, v in enumerate(self.fat) if v == DIF]),
            "fatlist": ivals(sorted(self.fatsects)), "diflist": ivals(sorted(self.difsects)),
            "streams": streams, "rangelock": rl,
        }

    def dirs(self):
        """Directory entries for the tree rules."""
        if self.err:
            return {"err": self.err}
        es = []
        for e in self.entries:
            es.append({"t": e["type"], "l": sid(e["left"]), "r": sid(e["right"]), "c": sid(e["child"]),
                       "b": e["color"], "n": [x for x in struct.unpack("<%dH" % (len(e["name"].upper().encode("utf-16le")) // 2), e["name"].upper().encode("utf-16le"))],
                       "nl": e["nl"]})
        return {"err": "", "es": es}


def sid(x):
    return -1 if x == NOSTREAM else (x if x < 2 ** 31 else -2)


def limb(n):
    """n -> [high, low] base 2^20, so that TLC's 32 bit integers can hold it"""
    return [n >> 20, n & 0xFFFFF]


def open_image(path_or_file):
    if hasattr(path_or_file, "read"):
        f = path_or_file
        f.seek(0, 2)
        size = f.tell()
        return Image(f, size)
    f = open(path_or_file, "rb")
    f.seek(0, 2)
    return Image(f, f.tell())
