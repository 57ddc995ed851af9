from obj_sets import *

STRONG = ("append", "extend", "assign", "insert", "setitem", "pop", "getitem", "clear", "none", "del", "set1", "reopen", "gc", "save",
          "popkey", "getkey", "setval")


def check(c):
    res = model_walks(c, "vec", STRONG, {"MaxXs": pick("1", "2"), "Fills": "2"})
    res += model_walks(c, "one", STRONG)
    res += model_walks(c, "param", STRONG)
    if THOROUGH:
        res += model_walks(c, "vec", ("append", "insert", "setitem", "pop", "assign", "clear", "reopen"),
                           {"MaxXs": "1", "Fills": "3", "IdxN": "2"}, "model vec3")
        res += model_walks(c, "set", STRONG)
        res += model_walks(c, "str", STRONG)
    c.validate("TraceObjects", res, label="model graph")
    c.validate("TraceObjects", random_histories(c, pick(110, 3000), 90, "A", "C06"), label="random histories, one file")
    c.validate("TraceObjects", random_histories(c, pick(24, 600), 90, "AB", "C06ab"), label="random histories, two files")
    c.validate("TraceObjects", random_histories(c, pick(8, 60), pick(300, 1200), "A", "C06long", look=0.05), label="long histories")


ASSUME = ["the program never hands over an object that sits inside a detached object, or one that contains the target (the code cannot see either)",
          "properties of the classes listed in Objects.tla (composition classes, mobs, definitions, tagged values, essence data, descriptors)"]
