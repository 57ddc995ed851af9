"""Executes the operations of spec/Session.tla on real files."""
from common import *
import shutil, tempfile
import aaf2
import aafimg


class Leave(Exception):
    pass


JUNK = [b"", b"not an aaf file", b"\xd0\xcf\x11\xe0" * 400]


class SessionRun(object):
    def __init__(self, salt, sector=4096):
        self.dir = tempfile.mkdtemp(prefix="vf_ses_")
        self.p = os.path.join(self.dir, "x.aaf")
        self.h = {}
        self.r = rng("session", salt)
        self.sector = sector
        self.ext = self.r.random() < 0.3
        self.writing = None
        self.abandoned = False
        self.ev = []

    def raw(self):
        if not os.path.exists(self.p):
            return None
        with open(self.p, "rb") as f:
            return f.read()

    def disk(self):
        b = self.raw()
        if b is None:
            return -2
        try:
            a = aafimg.AafImage(self.p)
            if a.err:
                return -1
            hdr = a.index(a.root, 2)["kids"][0]
            cs = a.index(hdr, a.named(hdr.cls)["Content"])["kids"][0]
            mobs = a.index(cs, a.named(cs.cls)["Mobs"])["kids"]
            return self.number([aafimg.text(m.props[a.named(m.cls)["Name"]][1]) for m in mobs])
        except (aafimg.Bad, ValueError, KeyError, IndexError):
            return -1

    def number(self, names):
        if not names:
            return 0
        return int(names[0][1:]) if len(names) == 1 and names[0][:1] == "v" else -8

    def seen(self, f):
        try:
            return self.number([m.name for m in f.content["Mobs"].value])
        except Exception:
            return -1

    def edit(self, f, v):
        mobs = list(f.content["Mobs"].value)
        if mobs and self.r.random() < 0.6:
            mobs[0].name = "v%d" % v
        elif mobs:
            def swap():
                m = f.create.MasterMob("v%d" % v)
                f.content["Mobs"].value = [m]
            swap()
        else:
            f.content["Mobs"].append(f.create.MasterMob("v%d" % v))

    def leave(self, f):
        try:
            with f:
                raise Leave()
        except Leave:
            pass

    def act(self, o):
        k = o["o"]
        if k == "put":
            if os.path.exists(self.p):
                os.unlink(self.p)
            if o["what"] == -1:
                with open(self.p, "wb") as f:
                    f.write(self.r.choice(JUNK))
            self.abandoned = False
            return "ok"
        if k == "open":
            f = []
            r, _ = outcome(lambda: f.append(aaf2.open(None if o["mem"] else self.p, o["mode"], sector_size=self.sector, extensions=self.ext)))
            if r == "ok":
                self.h[o["h"]] = f[0]
                if not o["mem"] and o["mode"] not in ("r", "rb"):
                    self.writing = o["h"]
            return r
        f = self.h[o["h"]]
        if k == "edit":
            return outcome(self.edit, f, o["v"])[0]
        if k == "save":
            return outcome(f.save)[0]
        r = outcome(f.close if k == "close" else lambda: self.leave(f))[0]
        if self.writing == o["h"]:
            self.writing = None
            self.abandoned = k == "exit"
        return r

    def do(self, o):
        before = self.raw()
        e = dict(o)
        e["r"] = self.act(o)
        if o["o"] == "open" and e["r"] == "ok" and self.writing == o["h"]:
            self.abandoned = False
        quiet = self.writing is not None or self.abandoned
        e["disk"] = -9 if quiet else self.disk()
        e["kept"] = 1 if self.raw() == before else 0
        e["seen"] = dict((h, self.seen(f)) for h, f in self.h.items())
        self.ev.append(e)
        return e

    def close(self):
        for f in self.h.values():
            outcome(f.close)
        shutil.rmtree(self.dir, ignore_errors=True)


def walk(ops, salt, sector):
    run = SessionRun(salt, sector)
    try:
        for o in ops:
            run.do(o)
        return {"init": 0, "ev": run.ev}
    finally:
        run.close()


def model_walks(c, subst):
    edges = c.model_check("MC_Session", None, subst, edges=True)
    walks, total, cov = covering_walks(edges, salt="session", max_len=120)
    if cov != total:
        raise RuntimeError("MC_Session: %d of %d" % (cov, total))
    c.extra.setdefault("model_transitions_executed", []).append(
        {"scope": "session", "constants": dict(subst), "transitions": total, "executed_on_code": cov, "walks": len(walks)})
    return c.sharded(lambda i: walk(walks[i], i, 512 if i % 2 else 4096), range(len(walks)))
