from cfb_sets import *


def check(c):
    res = model_walks(c, "MC_CFB_ns", {"Names": '{"a", "bb"}'}, "C01a")
    res += model_walks(c, "MC_CFB_ns", {"Names": '{"a", "A"}', "MaxNodes": "2"}, "C01b")
    if THOROUGH:
        res += model_walks(c, "MC_CFB_ns", {"Names": '{"a", "A", "bb"}'}, "C01c")
    c.validate("TraceCFB", tree_traces(res), label="model graph")
    res = random_histories(c, pick(40, 400), pick(250, 400), BALANCED, NAMES, "C01r")
    res += random_histories(c, pick(20, 200), pick(250, 400), BALANCED, PLAIN, "C01p", depth=4, maxlen=9000)
    c.validate("TraceCFB", tree_traces(res), label="random histories")
    res = wide(c, pick(2, 8), pick(560, 900), pick(450, 2000), "C01w")
    res += tall(c, pick(4, 20), pick(250, 700), "C01t")
    c.validate("TraceCFB", tree_traces(res), label="large directories")


ASSUME = ["one open stream handle at a time (the code keeps a private copy of a stream's sector chain in each handle)",
          "names without characters whose upper case has another length"]
