from cfb_sets import *


def check(c):
    K = ("dir",)
    res = model_walks(c, "MC_CFB_ns", {"Names": '{"a", "bb"}'}, "C03a", full_every=0)
    c.validate("TraceCFB", tree_traces(res), label="model graph, lookups")
    c.validate("TraceImage", image_traces(res, K), label="model graph")
    W = dict(BALANCED, reopen=8, remove=12, move=14)
    res = random_histories(c, pick(60, 500), pick(200, 400), W, NAMES, "C03r", depth=2, maxlen=100, full_every=1000)
    many = ["n%d" % i for i in range(40)] + ["long-name-%d" % i for i in range(20)]
    res += random_histories(c, pick(40, 300), pick(300, 500), dict(mkdir=20, touch=20, remove=18, move=10, rmtree=1, reopen=4), many, "C03m", depth=1, full_every=1000)
    c.validate("TraceCFB", tree_traces(res), label="random histories, lookups")
    c.validate("TraceImage", image_traces(res, K), label="random histories")
    res = tall(c, pick(10, 40), pick(160, 500), "C03t")
    c.validate("TraceCFB", tree_traces(res), label="large directories, lookups")
    c.validate("TraceImage", image_traces(res, K), label="large directories")


ASSUME = ["the image is projected by the harness's own parser of the published format (harness/cfbimg.py)",
          "names without characters whose upper case has another length"]
