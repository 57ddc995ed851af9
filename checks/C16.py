"""Essence: media imported, exported and copied."""
from common import *
import drv_essence


def check(c):
    c.model_check("MC_Essence")
    c.validate("TraceEssence", drv_essence.histories(c, pick(160, 4000), pick(40, 60), "C16"), label="histories of imports, exports and copies of media")
