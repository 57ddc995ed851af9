from cfb_sets import *


def check(c):
    K = ("alloc",)
    res = model_walks(c, "MC_CFB_st", {"Sizes": "{2048, 2049}", "MaxLen": "6145"}, "C02a", full_every=0)
    res += model_walks(c, "MC_CFB_ns", {"Names": '{"a", "bb"}', "MaxNodes": "2"}, "C02b", full_every=0)
    c.validate("TraceCFB", tree_traces(res), label="model graph, contents")
    c.validate("TraceImage", image_traces(res, K), label="model graph")
    W = dict(STREAM, remove=6, move=2, mkdir=3, rmtree=2, reopen=6)
    res = random_histories(c, pick(60, 600), pick(200, 300), W, PLAIN[:6], "C02r", depth=2, maxlen=60000, full_every=1000)
    c.validate("TraceCFB", tree_traces(res), label="random histories, contents")
    c.validate("TraceImage", image_traces(res, K), label="random histories")
    res = big512(c, "C02d") + wide(c, 2, pick(300, 900), 200, "C02w")
    c.validate("TraceCFB", tree_traces(res), label="large files, contents")
    c.validate("TraceImage", image_traces(res, K), label="large files, sectors")
    res = past2gb(c, "C02g")
    c.validate("TraceCFB", tree_traces(res), label="past 2 GB, contents")
    c.validate("TraceImage", image_traces(res, K), label="past 2 GB, sectors")


ASSUME = ["the image is projected by the harness's own parser of the published format (harness/cfbimg.py)"]
