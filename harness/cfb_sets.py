"""The families of compound-file histories that C01..C04 execute (each returns trace sets)."""
import random
from common import rng, pick, covering_walks, THOROUGH, SEED
from drv_cfb import CfbRun, SparseFile, MemFile, coll, run_ops, finish
from gen_cfb import Gen, history, BALANCED, STREAM, NAMES, PLAIN
import cfbimg
from aaf2.cfb import CompoundFileBinary

BACK = ["mem", "file", "raw"]


def pack(run, label):
    return {"label": label, "ev": run.ev, "images": run.images}


def tree_traces(res):
    return [{"init": [], "ev": x["ev"], "label": x["label"]} for x in res]


def image_traces(res, kinds):
    out = []
    for x in res:
        ev = []
        for al, di in x["images"]:
            if "alloc" in kinds:
                ev.append({"kind": "alloc", "a": al})
            if "dir" in kinds:
                ev.append({"kind": "dir", "a": di})
        if ev:
            out.append({"init": [], "ev": ev, "label": x["label"]})
    return out


def model_walks(c, cfg, subst, label, full_every=1, module="MC_CFB"):
    edges = c.model_check(module, cfg, subst, edges=True)
    walks, total, covered = covering_walks(edges, salt=label)
    c.extra.setdefault("model_transitions_executed", []).append({"config": cfg, "constants": dict(subst), "transitions": total,
                                                                "executed_on_code": covered, "walks": len(walks)})

    def one(i):
        run = run_ops(walks[i], 512 if i % 2 else 4096, BACK[i % 3], c.scratch, full_every)
        return pack(run, "%s walk %d" % (label, i))
    return c.sharded(one, range(len(walks)))


def random_histories(c, n, nops, weights, names, salt, depth=3, maxlen=20000, full_every=10):
    def one(i):
        r = rng(salt, i)
        run = CfbRun([512, 4096][i % 2], BACK[(i // 2) % 3], c.scratch)
        try:
            history(run, Gen(r, names, depth, maxlen), weights, nops, full_every)
        finally:
            run.dispose()
        return pack(run, "%s history %d" % (salt, i))
    return c.sharded(one, range(n))


def wide(c, n, ndirs, nops, salt):
    """More storages than any cache in the code holds."""
    def one(i):
        r = rng(salt, i)
        run = CfbRun([512, 4096][i % 2], "mem", c.scratch)
        g = Gen(r, ["a", "b", "cc"], depth=3, maxlen=200)
        st = run.step
        for k in range(ndirs + 37 * i):
            p = ["d%d" % k]
            g.note(st({"o": "mkdir", "p": p, "u": coll(p[-1]), "c": k % 7 * 2}))
        for k in range(nops):
            dirs = [list(p) for p, kk in g.t.items() if kk == "d" and len(p) == 1]
            p = list(r.choice(dirs))
            x = r.random()
            if x < .5:
                q = p + [r.choice(["a", "b", "cc"])]
                g.note(st({"o": "open", "p": q, "u": coll(q[-1]), "m": r.choice(["w", "rw"])}))
                st({"o": "write", "d": [[k % 200 + 1, r.randint(1, 100)]]})
            elif x < .58:
                st({"o": "exists", "p": p + ["a"]})
            elif x < .8:
                s = g.existing()
                q = p + ["m%d" % k]
                g.note(st({"o": "move", "p": s, "q": q, "u": coll(q[-1])}))
            elif x < .88:
                s = g.existing("s")
                if s:
                    g.note(st({"o": "remove", "p": s}))
            elif x < .91:
                g.note(st({"o": "rmtree", "p": g.existing("d")}))
            elif x < .94:
                g.note(st({"o": "setmeta", "p": g.existing(), "m": [k, k + 1, k + 2], "c": r.choice([0, 2, 9])}))
            else:
                q = ["n%d" % k]
                g.note(st({"o": "move", "p": g.existing("d"), "q": q, "u": coll(q[-1])}))
            if k % 150 == 149:
                st({"o": "exists", "p": ["a"]}, True)
            if k == nops // 2:
                g.note(st({"o": "reopen"}, True))
        finish(run)
        run.dispose()
        return pack(run, "%s wide %d" % (salt, i))
    return c.sharded(one, range(n))


def tall(c, n, count, salt):
    """One storage with many entries, inserted and removed in several orders."""
    def one(i):
        r = rng(salt, i)
        run = CfbRun([512, 4096][i % 2], "mem", c.scratch)
        st = run.step
        base = ["Dir"]
        st({"o": "mkdir", "p": base, "u": coll("Dir"), "c": 0})
        order = i % 5
        names = ["n%d" % k if i % 3 else "Element{%x}" % k for k in range(count)]
        if i % 3 == 2:
            names = ["".join(r.choice("abcDefg_^hij-") for _ in range(r.randint(1, 31))) for _ in range(count)]
            names = sorted(dict((x.upper(), x) for x in names).values())
        if order == 0:
            r.shuffle(names)
        elif order == 1:
            names = names[::-1]
        live = []

        def opn(k, nm):
            p = base + [nm]
            if k % 3:
                return {"o": "touch", "p": p, "u": coll(nm)}
            return {"o": "mkdir", "p": p, "u": coll(nm), "c": 0}
        for k, nm in enumerate(names):
            st(opn(k, nm))
            live.append(nm)
            if order >= 2 and r.random() < [0, 0, .3, .45, .6][order] and live:
                x = live.pop(r.randrange(len(live)))
                st({"o": "remove", "p": base + [x]})
        st({"o": "reopen"}, True)
        if order in (0, 3):
            r.shuffle(live)
        elif order == 4:
            live.reverse()
        for k in range(len(live)):
            st({"o": "remove", "p": base + [live[k]]})
            if k in (len(live) // 4, len(live) // 2, 3 * len(live) // 4):
                st({"o": "reopen"}, True)
        for k, nm in enumerate(names[:count // 4]):
            st(opn(k, nm))
        finish(run)
        run.dispose()
        return pack(run, "%s tall %d" % (salt, i))
    return c.sharded(one, range(n))


def big512(c, salt, total=17 << 20):
    """512-byte sectors past the first and second DIFAT sector, with frees and reuse in between."""
    def one(i):
        r = rng(salt, i)
        run = CfbRun(512, "mem", c.scratch)
        st = run.step
        out = []
        st({"o": "open", "p": ["s0"], "u": coll("s0"), "m": "w"})
        n, k = 0, 0
        while n < total:
            m = r.choice([300000, 700001, 4095, 1 << 20])
            st({"o": "write", "d": [[k % 250 + 1, m]]})
            n += m
            k += 1
            if k % 5 == 0:
                nm = "s%d" % (k % 4)
                st({"o": "open", "p": [nm], "u": coll(nm), "m": "rw"})
                st({"o": "seek", "n": 0, "w": 2})
            if k % 17 == 0:
                st({"o": "truncate", "n": r.randint(1, 300000)})
            if k % 13 == 0:
                st({"o": "reopen"}, True)
                st({"o": "open", "p": ["s1"], "u": coll("s1"), "m": "rw"})
                st({"o": "read", "n": 200000})
        st({"o": "reopen"}, True)
        st({"o": "remove", "p": ["s0"]})
        st({"o": "open", "p": ["again"], "u": coll("again"), "m": "w"})
        st({"o": "write", "d": [[7, 3000000]]})
        finish(run)
        run.dispose()
        return pack(run, "%s big512 %d" % (salt, i))
    return c.sharded(one, range(pick(2, 6)))


def past2gb(c, salt):
    return c.sharded(lambda i: _past2gb(c, salt)[0], [0])


def _past2gb(c, salt):
    """4096-byte sectors across the 2 GB range-lock sector, on a sparse in-memory file."""
    run = CfbRun(4096, "mem", c.scratch)
    f = SparseFile()
    run.f = f
    run.c = CompoundFileBinary(f, "wb+", 4096)
    st = run.step
    st({"o": "open", "p": ["a"], "u": coll("a"), "m": "w"})
    zeros = bytes(1 << 26)
    s = run.s
    for i in range(31):                # not through step(): 2 GB of zeros is one logical write
        s.write(zeros)
    left = (1 << 26) - 4096 * 1100
    s.write(bytes(left))
    e = {"o": "write", "d": [[0, 31 * (1 << 26) + left]], "r": "ok", "v": [], "pos": s.tell(), "size": s.dir.byte_size, "full": 0, "tree": []}
    run.ev.append(e)
    st({"o": "open", "p": ["b"], "u": coll("b"), "m": "w"})
    for k in range(6):
        st({"o": "write", "d": [[k + 1, 1 << 20], [k + 101, 1000]]})
        st({"o": "open", "p": ["c"], "u": coll("c"), "m": "rw"})
        st({"o": "seek", "n": 0, "w": 2})
        st({"o": "write", "d": [[k + 51, 70000]]})
        st({"o": "open", "p": ["b"], "u": coll("b"), "m": "rw"})
        st({"o": "seek", "n": 0, "w": 2})
    images = []

    def reopen():
        run.s = None
        run.c.close()
        im = cfbimg.Image(f, f.n)
        images.append((im.alloc(), im.dirs()))
        run.c = CompoundFileBinary(f, "rb+")
        run.ev.append({"o": "reopen", "r": "ok", "v": [], "pos": -1, "size": -1, "full": 0, "tree": []})
    reopen()
    for nm in ("b", "c"):
        st({"o": "open", "p": [nm], "u": coll(nm), "m": "r"})
        st({"o": "read", "n": -1})
    st({"o": "remove", "p": ["b"]})
    st({"o": "open", "p": ["d"], "u": coll("d"), "m": "w"})
    for k in range(8):
        st({"o": "write", "d": [[k + 11, 1 << 20], [k + 31, 77]]})
    reopen()
    st({"o": "open", "p": ["d"], "u": coll("d"), "m": "r"})
    st({"o": "read", "n": -1})
    run.images = images
    return [pack(run, "%s past 2 GB" % salt)]
