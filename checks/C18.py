"""Media: files and probes linked into AAF files."""
from common import *
import drv_media


def check(c):
    c.model_check("MC_Media")
    c.validate("TraceMedia", drv_media.histories(c, pick(160, 4000), pick(16, 24), "C18"), label="histories of linked MXF files and probed media")
