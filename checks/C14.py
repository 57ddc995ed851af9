"""Tagged values: comments and attributes of objects."""
from common import *
import drv_tag


def check(c):
    c.model_check("MC_Tags")
    c.validate("TraceTags", drv_tag.histories(c, pick(200, 6000), pick(110, 150), "C14"), label="histories of comments and attributes")


ASSUME = ["names and strings without NUL; None is no value"]
