from mkseed import seed
from demopre import PRE, P
C = "src/aaf2/cfb.py"
seed("s14-truncate-regrow", "C04", [(C, """            fat_table[last_sector_id] = ENDOFCHAIN
            self.fat_chain = self.fat_chain[:sector_count]
""", """            fat_table[last_sector_id] = ENDOFCHAIN
            if not is_mini_stream:
                self.fat_chain = self.fat_chain[:sector_count]
""")], "a small stream is truncated to a smaller non-zero size and grown again through the same handle",
     "the handle keeps using mini sectors that are free: the stream cannot be read back after reopening", '''
from aaf2.cfb import CompoundFileBinary
def check(ok, *what):
    if not ok:
        print("broken", what); os._exit(1)
class Mem(object):
    def __init__(self, data=b""):
        self.b = io.BytesIO(data)
        for n in ("read", "write", "seek", "tell", "truncate", "readinto", "getvalue"):
            setattr(self, n, getattr(self.b, n))
    def close(self): pass
f = Mem()
c = CompoundFileBinary(f, "wb+")
s = c.open("/s", "w")
s.write(b"a" * 1000); s.seek(100); s.truncate(); s.seek(0, 2); s.write(b"b" * 900)
c.open("/t", "w").write(b"c" * 700)
c.close()
try:
    c = CompoundFileBinary(Mem(f.getvalue()), "rb")
    check(bytes(c.open("/s", "r").read()) == b"a" * 100 + b"b" * 900, "s")
    check(bytes(c.open("/t", "r").read()) == b"c" * 700, "t")
except Exception as e:
    check(False, repr(e))
''')
seed("s16-readonly-set-pop", "C10", [(P, """    @writeonly
    def pop(self, key):
        obj = self.get(key)
        if obj is None:
            raise KeyError(key)

        self.references.pop(key)
        self.objects.pop(key)
""", """    def pop(self, key):
        obj = self.get(key)
        if obj is None:
            raise KeyError(key)

        self.references.pop(key)
        self.objects.pop(key)
        if not self.parent.root.f.closed and self.writeable:
            self.mark_modified()
""")], "a member is popped from a set of a file opened for reading", "the operation fails only half way, or not at all: the member is gone from the open file", PRE + '''
with aaf2.open(path, "w") as f:
    m = mob(f, seq(f, 1)); f.content.mobs.append(m); i = m.mob_id
with aaf2.open(path, "r") as f:
    try:
        f.content["Mobs"].pop(i)
        ok = False
    except Exception:
        ok = True
    check(ok and len(list(f.content.mobs)) == 1 and f.content.mobs.get(i) is not None, "popped")
''')
seed("s17-readonly-set-clear", "C10", [(P, """    @writeonly
    def clear(self):
        for item in self.values():
            item.detach()
        self.references = {}
        if self.attached:""", """    def clear(self):
        for item in self.values():
            item.detach()
        if self.writeable:
            self.mark_modified()
        self.references = {}
        if self.attached:""")],
     "a set with no members, or one member whose detaching is refused half way, is cleared in a file opened for reading",
     "clear() is accepted on an empty set, and half done otherwise", PRE + '''
with aaf2.open(path, "w") as f:
    m = mob(f, seq(f, 1)); f.content.mobs.append(m); i = m.mob_id
with aaf2.open(path, "r") as f:
    try:
        f.content["Mobs"].clear()
        ok = False
    except Exception:
        ok = True
    names = [x.mob_id for x in f.content.mobs]
    check(ok and names == [i], "cleared")
''')
