from obj_sets import *

W = {"copy": 14, "swrite": 8, "wextend": 6, "wassign": 4, "setval": 10, "setkey": 6}


def check(c):
    res = model_walks(c, "copy", ("append", "pop", "setval", "copy", "reopen"), {"IdxN": "1"}, "model copy1")
    res += model_walks(c, "copy", ("append", "swrite", "copy"), {"IdxN": "1"}, "model copy2")
    res += model_walks(c, "defs", ("wassign", "copy"))
    if THOROUGH:
        res += model_walks(c, "copy", ("append", "pop", "setval", "swrite", "del", "copy"), {"IdxN": "1"}, "model copy3")
        res += model_walks(c, "defs", ("append", "wassign", "copy"), label="model defs2")
    c.validate("TraceObjects", res, label="model graph")
    c.validate("TraceObjects", random_histories(c, pick(80, 2400), 80, "AB", "C08", weights=W), label="random histories, two files")
    c.validate("TraceObjects", random_histories(c, pick(32, 800), 80, "A", "C08a", weights=W), label="random histories, one file")
    c.validate("TraceObjects", random_histories(c, pick(16, 400), 80, "ABC", "C08c", weights=W), label="random histories, three files")


ASSUME = ["every weak reference in the copied tree resolves", "properties of the classes listed in Objects.tla"]
