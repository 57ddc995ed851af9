"""Parameters of effects: keyframes, values at a time, offset maps."""
from common import *
import drv_param


def check(c):
    c.model_check("MC_Params")
    c.validate("TraceParams", drv_param.histories(c, pick(240, 8000), pick(110, 150), "C15"), label="histories of parameters and keyframes")
