"""Declarations: classes, properties and types a file declares, registers and receives with copies."""
from common import *
import drv_meta


def check(c):
    c.model_check("MC_Meta")
    c.validate("TraceModel", drv_meta.std_files(c, "C12 std"), label="the built-in model in new, saved, foreign and reopened files")
    c.validate("TraceMeta", drv_meta.histories(c, pick(200, 6000), pick(50, 80), "C12"), label="histories of declarations in two files")


ASSUME = ["the independent reader in harness/aafimg.py", "harness/model.json, the AAF object model as of the pinned commit"]
