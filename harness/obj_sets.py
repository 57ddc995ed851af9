"""The families of object-graph histories (each returns traces for spec/TraceObjects)."""
from common import *
from drv_obj import ObjRun
from gen_obj import history
import gen_obj

LETTERS = {"o", "p", "prop", "x", "xs", "i", "key", "nv", "d", "file", "to", "map", "keep", "cls", "val", "kids", "weak"}


def fields(op):
    o = dict(op)
    for k in ("kids", "weak", "map"):
        if k in o and o[k] == []:
            o[k] = {}
    if o["o"] == "copy":
        o["want"] = o.pop("map")
    if o["o"] == "assign":
        o["holdold"] = 1
    if "xs" in o:
        o["w"] = "list"
    return o


def look(run):
    for f in run.names:
        tops = [x for x in run.m.tops(f) if x in run.held]
        run.do({"o": "look", "file": f, "held": tops})
        if run.ev[-1]["r"] != "ok":
            return False
    return True


def walk(prefix, ops, files, sector, label, disk=False):
    run = ObjRun(files, sector=sector)
    run.disk = {} if disk else None
    try:
        for o in prefix:
            run.do(fields(o))
        look(run)
        for o in ops:
            run.do(fields(o))
            if run.ev[-1]["r"] in ("lost", "hang") or run.broken or not look(run):
                break
        return run.trace(label)
    finally:
        run.close()


def model_walks(c, scope, ops, subst=(), label=None, max_len=160, disk=False):
    """every transition of the universe `scope` of MC_Objects, executed on real files"""
    s = {"Scope": '"%s"' % scope, "OpSet": "{%s}" % ", ".join('"%s"' % o for o in ops)}
    s.update(subst)
    label = label or "model " + scope
    out = c.model_check("MC_Objects", None, s, edges="raw")
    prefix = parse_printed(out, "PREFIX")
    walks, total, covered = covering_walks(parse_edges(out), init=parse_init(out), salt=label, max_len=max_len)
    del out
    c.extra.setdefault("model_transitions_executed", []).append(
        {"scope": scope, "constants": dict(s), "transitions": total, "executed_on_code": covered, "walks": len(walks)})
    if covered != total:
        raise RuntimeError("%s: only %d of %d transitions reached" % (scope, covered, total))
    files = "AB" if scope in ("copy", "defs") else "A"

    def one(i):
        return walk(prefix, walks[i], files, 512 if i % 2 else 4096, "%s walk %d" % (label, i), disk)
    return c.sharded(one, range(len(walks)))


def random_histories(c, n, steps, files, salt, weights=None, classes=None, look=0.2, keys=12, disk=False):
    def one(i):
        return history(rng(salt, i), steps, files, weights, classes, look, keys, sector=512 if i % 2 else 4096,
                       fresh=i % 7 == 0, label="%s history %d" % (salt, i), disk=disk)
    return c.sharded(one, range(n))


ALL = ("append", "extend", "assign", "insert", "setitem", "pop", "getitem", "clear", "none", "del", "reopen", "gc", "save",
       "popkey", "getkey", "set1", "swrite", "setkey", "mobof", "essof", "wextend", "wassign", "wclear", "setval", "copy")
