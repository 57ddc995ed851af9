from obj_sets import *

W = {"reopen": 14, "save": 8, "swrite": 7, "wextend": 5, "wassign": 4, "copy": 5, "complete": 14}


def check(c):
    res = model_walks(c, "vec", ("append", "insert", "setitem", "pop", "clear", "reopen"), {"Fills": "2"}, disk=True)
    res += model_walks(c, "set", ("append", "popkey", "setkey", "reopen"), disk=True)
    res += model_walks(c, "weak", ("append", "wassign", "none", "reopen"), disk=True)
    res += model_walks(c, "copy", ("append", "pop", "copy", "reopen"), {"IdxN": "1"}, disk=True)
    c.validate("TraceObjects", res, label="model graph")
    c.validate("TraceObjects", random_histories(c, pick(56, 1600), 80, "A", "C07", weights=W, disk=True), label="random histories, one file")
    c.validate("TraceObjects", random_histories(c, pick(24, 800), 80, "AB", "C07ab", weights=W, disk=True), label="random histories, two files")


ASSUME = ["the independent reader in harness/aafimg.py", "properties of the classes listed in Objects.tla"]
