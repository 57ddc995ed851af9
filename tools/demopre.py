"""what demonstrations of planted bugs start with"""
P = "src/aaf2/properties.py"
PRE = '''
import gc, aaf2
from aaf2.mobid import MobID
d = tempfile.mkdtemp(prefix="demo_")
import atexit; atexit.register(shutil.rmtree, d, True)
path = os.path.join(d, "a.aaf")
def seq(f, *lengths):
    s = f.create.Sequence(media_kind="picture")
    s.components.value = [f.create.Filler("picture", n) for n in lengths]
    return s
def mob(f, s, name="m"):
    m = f.create.CompositionMob(name)
    slot = m.create_timeline_slot(25); slot.segment = s
    return m
def check(ok, *what):
    if not ok:
        print("broken", what); os._exit(1)
'''
