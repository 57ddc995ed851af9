"""Ids: forms, fields and order of identifiers."""
from common import *
import drv_ids


def check(c):
    c.model_check("MC_Ids")
    c.validate("TraceIds", drv_ids.histories(c, pick(200, 8000), pick(120, 150), "C17"), label="histories of identifiers")
