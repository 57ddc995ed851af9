from obj_sets import *

W = {"setkey": 12, "popkey": 8, "getkey": 10, "wset1": 8, "wextend": 8, "wassign": 6, "wclear": 3, "mobof": 6, "essof": 5}
CL = ["cmob", "mmob", "smob", "slot", "seq", "fill", "opg", "opg", "clip", "param", "param", "ess", "ess", "opdef", "opdef", "pardef", "pardef", "datdef"]


def check(c):
    res = model_walks(c, "set", ("append", "extend", "assign", "clear", "reopen", "gc", "popkey", "getkey", "setkey", "mobof"), {"MaxXs": "1"})
    res += model_walks(c, "str", ("append", "extend", "popkey", "getkey", "setkey", "essof", "swrite", "reopen"))
    res += model_walks(c, "weak", ("append", "wassign", "wextend", "wclear", "none", "reopen"))
    if THOROUGH:
        res += model_walks(c, "set", ("append", "extend", "assign", "reopen", "popkey", "getkey", "setkey"), {"MaxXs": "2"}, "model set2")
        res += model_walks(c, "weak", ("append", "wassign", "wextend", "none", "popkey", "reopen", "gc"), {"MaxXs": "2"}, "model weak2")
    c.validate("TraceObjects", res, label="model graph")
    c.validate("TraceObjects", random_histories(c, pick(96, 3000), 90, "A", "C09", weights=W, classes=CL, keys=6), label="random histories, few keys")
    c.validate("TraceObjects", random_histories(c, pick(24, 600), 90, "AB", "C09ab", weights=W, classes=CL, keys=6), label="random histories, two files")
    c.validate("TraceObjects", random_histories(c, pick(8, 40), pick(300, 1500), "A", "C09long", weights=W, classes=CL, keys=40, look=0.04), label="long histories")


ASSUME = ["properties of the classes listed in Objects.tla"]
