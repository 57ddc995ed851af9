"""Bounded caches: least-recently-used map."""
from common import *
from aaf2.cache import LRUCacheDict


def one_trace(size, cap, ops):
    d = LRUCacheDict(size)
    ev = []
    universe = sorted(set(o["k"] for o in ops))
    for o in ops:
        k = o["k"]
        if o["o"] == "set":
            r, v = outcome(d.__setitem__, k, o["v"])
        elif o["o"] == "get":
            r, v = outcome(d.get, k, -1)
        elif o["o"] == "item":
            r, v = outcome(d.__getitem__, k)
        elif o["o"] == "in":
            r, v = outcome(lambda: 1 if k in d else 0)
        else:
            r, v = outcome(d.__delitem__, k)
        e = {"o": o["o"], "k": k, "w": o.get("v", 0), "r": r, "v": v if isinstance(v, int) and v is not None else -1}
        r2, ks = outcome(lambda: [x for x in universe if x in d])
        e["keys"] = ks if r2 == "ok" else [-2]
        ev.append(e)
    return {"init": cap, "ev": ev}


def capacity(size):
    """how many fresh keys the map holds at once (`size`, or `size` and the head)"""
    d = LRUCacheDict(size)
    n = size * 2 + 5
    for i in range(n):
        d[i] = i
    return sum(1 for i in range(n) if i in d)


def check(c):
    for size in pick([1, 2, 3], [1, 2, 3, 4]):
        r, cap = outcome(capacity, size)
        if r != "ok" or cap not in (size, size + 1):
            c.report("a map of size %d holds %s keys" % (size, cap), {})
            continue
        edges = c.model_check("MC_LRU", None, {"Cap": str(cap), "Keys": "{%s}" % ", ".join(map(str, range(1, cap + 3))),
                                             "Vals": "{7, 8}" if cap <= 2 else "{7}"}, edges=True)
        walks, total, cov = covering_walks(edges, salt="C05%d" % size, max_len=200)
        c.extra.setdefault("model_transitions_executed", []).append({"cap": cap, "transitions": total, "executed_on_code": cov})
        c.validate("TraceLRU", [one_trace(size, cap, w) for w in walks], label="model graph, size %d" % size)
    trs = []
    for i in range(pick(60, 600)):
        r = rng("C05", i)
        size = r.choice([1, 2, 5, 17, 60])
        rr, cap = outcome(capacity, size)
        if rr != "ok" or cap not in (size, size + 1):
            c.report("a map of size %d holds %s keys" % (size, cap), {})
            continue
        nk = max(2, int(size * r.choice([0.7, 1.2, 2])))
        ops = []
        for _ in range(300):
            k = r.choices(["set", "get", "item", "in", "del"], [6, 3, 2, 1, r.choice([1, 4])])[0]
            ops.append({"o": k, "k": r.randint(1, nk + 1), "v": r.randint(0, 10 ** 6)})
        trs.append(one_trace(size, cap, ops))
    c.validate("TraceLRU", trs, label="random histories")


ASSUME = ["values are plain integers; the map is used from one thread"]
