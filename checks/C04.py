from cfb_sets import *


def check(c):
    for sizes, ml in (("{32, 33}", "98"), ("{2048, 2049}", "6145"), ("{1, 4095}", "4097")):
        if sizes == "{1, 4095}" and not THOROUGH:
            continue
        res = model_walks(c, "MC_CFB_st", {"Sizes": sizes, "MaxLen": ml, "MaxRuns": "3" if ml != "4097" else "2"}, "C04" + sizes)
        c.validate("TraceCFB", tree_traces(res), label="model graph " + sizes)
    res = random_histories(c, pick(60, 600), pick(250, 400), STREAM, PLAIN[:3], "C04r", depth=1, maxlen=60000)
    res += random_histories(c, pick(30, 200), pick(200, 300), STREAM, PLAIN[:2], "C04s", depth=1, maxlen=4300)
    c.validate("TraceCFB", tree_traces(res), label="random histories")
    res = big512(c, "C04b", total=3 << 20)
    c.validate("TraceCFB", tree_traces(res), label="streams larger than the sector cache")


ASSUME = ["one open stream handle at a time"]
