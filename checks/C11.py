"""Property values: stored bytes and values read back."""
from common import *
import drv_val


def check(c):
    c.model_check("MC_Values")
    c.validate("TraceValues", drv_val.histories(c, pick(240, 6000), 80, "C11"), label="histories of values, every class")


ASSUME = ["strings hold no NUL character and timestamps no fraction of a second", "the independent reader in harness/aafimg.py"]
