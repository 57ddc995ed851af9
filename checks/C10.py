"""Read-only sessions change nothing; sessions publish exactly what they close."""
from obj_sets import *
import drv_session

W = {"session": 16, "reopen": 1, "save": 6, "copy": 5, "complete": 16}


def check(c):
    modes = '{"r", "rb", "rw", "r+", "rb+", "w", "w+", "wb+", "x", ""}'
    for s in ({"Hs": '{"a"}', "Modes": modes}, {"Modes": pick('{"r", "rw"}', modes), "Vs": pick("{1}", "{1, 2}")}):
        c.validate("TraceSession", drv_session.model_walks(c, s), label="all transitions of the session model")
    c.validate("TraceObjects", random_histories(c, pick(40, 1600), 90, "A", "C10", weights=W), label="random histories, one file")
    c.validate("TraceObjects", random_histories(c, pick(40, 1600), 90, "AB", "C10ab", weights=W), label="random histories, two files")


ASSUME = ["one program; a path is opened for writing only while no other handle on it is open",
          "nothing is promised about a file whose writing session ended with an exception"]
