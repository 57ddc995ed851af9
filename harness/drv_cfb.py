"""Drives the real compound file (aaf2.cfb.CompoundFileBinary) and records events."""
import io, os, random
from common import rle, unrle, outcome
import cfbimg
from aaf2.cfb import CompoundFileBinary
from aaf2.auid import AUID

ROOT_CLS = AUID("b3b398a5-1c90-11d4-8053-080036210804").bytes_le


class MemFile(object):
    """An in-memory file that is not a BytesIO (which the code treats specially)."""

    def __init__(self, data=b""):
        self.b = io.BytesIO(data)
        for n in ("read", "write", "seek", "tell", "truncate", "readinto", "getvalue"):
            setattr(self, n, getattr(self.b, n))

    def close(self):
        pass

    def flush(self):
        pass


def cls_index(b):
    b = bytes(b)
    if b == bytes(16):
        return 0
    if b == bytes(ROOT_CLS):
        return 1
    n = int(AUID(bytes_le=b).int)
    return n if 0 < n < 2 ** 30 else -1


def cls_auid(n):
    return None if n == 0 else AUID(int=n)


def coll(name):
    return "%d:%s" % (len(name), name.upper())


def sp(path):
    return "/" + "/".join(path)


class CfbRun(object):
    def __init__(self, ss=4096, backend="mem", scratch=None):
        self.ss, self.backend = ss, backend
        if backend == "mem":
            self.f = MemFile()
        else:
            self.path = os.path.join(scratch, "cfb_%d.bin" % random.SystemRandom().getrandbits(60))
            self.f = io.open(self.path, "wb+", **self.kw())
        self.c = CompoundFileBinary(self.f, "wb+", sector_size=ss)
        self.s = None
        self.ev = []
        self.images = []

    def kw(self):
        return {"buffering": 0} if self.backend == "raw" else {}

    def dispose(self):
        if self.backend != "mem":
            try:
                self.f.close()
            except Exception:
                pass
            if os.path.exists(self.path):
                os.unlink(self.path)

    # -- image of the file as it is on disk right now (only meaningful after close)
    def image(self):
        if self.backend == "mem":
            return cfbimg.open_image(io.BytesIO(self.f.getvalue()))
        self.f.flush()
        return cfbimg.open_image(self.path)

    def reopen(self, ro=False):
        self.s = None
        self.c.close()
        if self.backend != "mem":
            self.f.close()
            self.f = None
        self.imgs = self.image_after_close()
        if self.backend != "mem":
            self.f = io.open(self.path, "rb" if ro else "rb+", **self.kw())
        else:
            self.f = MemFile(self.f.getvalue())
        self.c = CompoundFileBinary(self.f, "rb" if ro else "rb+")

    def image_after_close(self):
        if self.backend == "mem":
            im = cfbimg.open_image(io.BytesIO(self.f.getvalue()))
        else:
            im = cfbimg.open_image(self.path)
        self.last_image = im
        return im

    def do(self, op):
        o, c = op["o"], self.c
        if o == "mkdir":
            return c.makedir(sp(op["p"]), cls_auid(op["c"])) and None
        if o == "mkdir_at":      # DirEntry.makedir(relative)
            return c.find(sp(op["p"][:-1])).makedir(op["p"][-1], cls_auid(op["c"])) and None
        if o == "makedirs":
            c.makedirs(sp(op["p"]))
        elif o == "open":
            s = c.open(sp(op["p"]), op["m"])
            self.s = s
        elif o == "touch":
            c.find(sp(op["p"][:-1])).touch(op["p"][-1])
        elif o == "write":
            self.s.write(unrle(op["d"]))
        elif o == "read":
            return rle(self.s.read(op["n"]))
        elif o == "seek":
            self.s.seek(op["n"], op["w"])
        elif o == "truncate":
            if op["n"] < 0:
                self.s.truncate()
            else:
                self.s.truncate(op["n"])
        elif o == "remove":
            c.remove(sp(op["p"]))
        elif o == "rmtree":
            c.rmtree(sp(op["p"]))
        elif o == "move":
            c.move(sp(op["p"]), sp(op["q"]))
        elif o == "exists":
            return [1 if c.exists(sp(op["p"])) else 0]
        elif o == "setmeta":
            e = c.find(sp(op["p"]))
            e.flags, e.create_time, e.modify_time = op["m"]
            e.class_id = cls_auid(op["c"])
        elif o == "reopen":
            self.reopen()
        else:
            raise RuntimeError(o)

    def api_tree(self):
        """The whole tree as the API shows it (walk, listdir, entry fields, stream reads)."""
        c = self.c
        out = [{"p": [], "pp": [], "k": "d", "d": [], "c": cls_index(c.root.class_id.bytes_le if c.root.class_id else bytes(16)), "m": [0, 0, 0]}]
        stack = [(c.root, [])]
        while stack:
            ent, path = stack.pop()
            for name, e in list(c.listdir_dict(ent).items()):
                p = path + [name]
                isd = e.isdir()
                d = []
                if not isd:
                    d = rle(e.open("r").read())
                cid = e.class_id
                out.append({"p": p, "pp": [x for x in e.path().split("/") if x], "k": "d" if isd else "s", "d": d,
                            "c": 0 if cid is None else cls_index(cid.bytes_le),
                            "m": [e.flags, e.create_time, e.modify_time]})
                if isd:
                    stack.append((e, p))
        return out

    def step(self, op, full=False):
        hopen = self.s
        o = op["o"]
        if o in ("write", "read", "seek", "truncate") and self.s is None:
            r, v = "err", ""           # no handle: the harness has nothing to call
        else:
            r, v = outcome(self.do, op)
        e = dict(op)
        if o == "mkdir_at":
            e["o"] = "mkdir"
        e["r"] = r
        e["v"] = v if isinstance(v, list) else []
        e["pos"], e["size"] = -1, -1
        if r == "err" and isinstance(v, str):
            e["x"] = v
        if r == "ok" and o in ("remove", "rmtree") and self.s is not None:
            # a handle on a removed stream is not used again
            if self.hpath()[:len(op["p"])] == op["p"]:
                self.s = None
        if r == "ok" and o == "open":
            self.hp = list(op["p"])
        if r == "ok" and o == "move" and self.s is not None and self.hp[:len(op["p"])] == op["p"]:
            self.hp = list(op["q"]) + self.hp[len(op["p"]):]
        if self.s is not None:
            try:
                e["pos"], e["size"] = self.s.tell(), self.s.dir.byte_size
            except Exception as x:
                e["pos"], e["size"] = -7, -7
        e["full"] = 0
        e["tree"] = []
        if full:
            e["full"] = 1
            r2, t = outcome(self.api_tree)
            e["tree"] = t if r2 == "ok" else [{"p": ["<unreadable: %s>" % t], "pp": [], "k": "x", "d": [], "c": 0, "m": [0, 0, 0]}]
        self.ev.append(e)
        # the same reopen seen by the independent reader
        if o == "reopen" and r == "ok":
            im = self.last_image
            e2 = {"o": "reopen", "r": "ok", "v": [], "pos": -1, "size": -1, "full": 1}
            try:
                e2["tree"] = im.tree(True, cls_index) if not im.err else [{"p": ["<image: %s>" % im.err], "pp": [], "k": "x", "d": [], "c": 0, "m": [0, 0, 0]}]
                root = [x for x in e2["tree"] if x["p"] == []]
            except cfbimg.Bad as x:
                e2["tree"] = [{"p": ["<image: %s>" % x], "pp": [], "k": "x", "d": [], "c": 0, "m": [0, 0, 0]}]
            self.ev.append(e2)
            self.images.append((im.alloc(), im.dirs()))
        return e

    def hpath(self):
        return self.hp


def finish(run):
    """Final reopen with everything observed by both readers."""
    run.step({"o": "reopen"}, full=True)


def run_ops(ops, ss, backend, scratch, full_every=1):
    run = CfbRun(ss, backend, scratch)
    try:
        for i, op in enumerate(ops):
            run.step(op, full=(full_every and i % full_every == full_every - 1))
            if run.ev[-1]["r"] == "hang":
                break
        else:
            finish(run)
    finally:
        run.dispose()
    return run


class SparseFile(object):
    """A file that keeps only pages holding a non-zero byte; lets a check write past 2 GB."""
    PAGE = 4096
    ZERO = bytes(4096)

    def __init__(self):
        self.p, self.n, self.pos = {}, 0, 0

    def seek(self, o, w=0):
        self.pos = o if w == 0 else (self.pos + o if w == 1 else self.n + o)
        return self.pos

    def tell(self):
        return self.pos

    def write(self, data):
        data = bytes(data)
        n, off = len(data), 0
        P = self.PAGE
        while off < n:
            k, o = divmod(self.pos + off, P)
            m = min(P - o, n - off)
            chunk = data[off:off + m]
            if m == P:
                if chunk == self.ZERO:
                    self.p.pop(k, None)
                else:
                    self.p[k] = chunk
            else:
                cur = self.p.get(k, self.ZERO)
                self.p[k] = cur[:o] + chunk + cur[o + m:]
            off += m
        self.pos += n
        self.n = max(self.n, self.pos)
        return n

    def read(self, n=-1):
        if n is None or n < 0:
            n = max(0, self.n - self.pos)
        n = max(0, min(n, self.n - self.pos))
        out = []
        left = n
        pos = self.pos
        while left:
            k, o = divmod(pos, self.PAGE)
            m = min(self.PAGE - o, left)
            out.append(self.p.get(k, self.ZERO)[o:o + m])
            pos += m
            left -= m
        self.pos = pos
        return b"".join(out)

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)

    def truncate(self, size=None):
        size = self.pos if size is None else size
        for k in [k for k in self.p if k * self.PAGE >= size]:
            del self.p[k]
        k, o = divmod(size, self.PAGE)
        if k in self.p:
            self.p[k] = self.p[k][:o] + bytes(self.PAGE - o)
        self.n = size
        return size

    def flush(self):
        pass

    def close(self):
        pass
