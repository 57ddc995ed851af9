"""Timelines: positions, lengths, slots and references between mobs."""
from common import *
import drv_time


def check(c):
    c.model_check("MC_Timeline")
    c.validate("TraceTimeline", drv_time.histories(c, pick(160, 6000), pick(150, 200), "C13"), label="histories of compositions")


ASSUME = ["no claim about sequences AAF forbids (empty components, transitions at the ends or longer than their neighbours)"]
