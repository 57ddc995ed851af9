from mkseed import seed
CFB = "src/aaf2/cfb.py"
PRE = '''
from aaf2.cfb import CompoundFileBinary
class Mem(object):
    def __init__(self, data=b""):
        self.b = io.BytesIO(data)
        for n in ("read", "write", "seek", "tell", "truncate", "readinto", "getvalue"):
            setattr(self, n, getattr(self.b, n))
    def close(self): pass
def new(ss=4096): 
    f = Mem(); return f, CompoundFileBinary(f, "wb+", sector_size=ss)
def again(f, c):
    c.close(); f = Mem(f.getvalue()); return f, CompoundFileBinary(f, "rb+")
'''
seed("s01-stale-children", "C01", [(CFB, """        if entry.dir_id in self.children_cache:
            del self.children_cache[entry.dir_id]

        if entry.dir_id in self.modified:""", """        if entry.dir_id in self.modified:""")],
     "a storage with children removed recursively, then a new storage that gets the same directory id",
     "the new storage lists the removed children", PRE + '''
f, c = new()
c.makedir("/a"); c.makedir("/a/b"); c.open("/a/b/x", "w").write(b"1")
c.rmtree("/a")
for i in range(40):
    c.makedir("/n%d" % i)
bad = [i for i in range(40) if c.listdir_dict("/n%d" % i)]
assert not bad, bad
''')
seed("s02-cutoff-free", "C02", [(CFB, """                logging.debug("stream: %s exists, overwriting" % path)
                self.free_fat_chain(entry.sector_id, entry.byte_size < self.min_stream_max_size)""",
"""                logging.debug("stream: %s exists, overwriting" % path)
                self.free_fat_chain(entry.sector_id, entry.byte_size <= self.min_stream_max_size)""")],
     "overwriting an existing stream of exactly 4096 bytes while small streams exist",
     "the old regular chain is never freed and mini sectors of other streams are", PRE + '''
f, c = new(512)
c.open("/small", "w").write(b"s" * 3000)
c.open("/big", "w").write(b"b" * 4096)
try:
    c.open("/big", "w").write(b"c" * 3000)
    f, c = again(f, c)
    assert c.open("/small").read() == b"s" * 3000
    assert c.open("/big").read() == b"c" * 3000
    # every allocated sector must be owned: an 8 KB write must fit in what the overwrite freed
    import struct
    c.open("/one", "w").write(b"o" * 4096)
    used = sum(1 for v in c.fat if v != 0xFFFFFFFF)
    for i in range(30):
        c.open("/one", "w").write(b"o" * 4096)
    assert sum(1 for v in c.fat if v != 0xFFFFFFFF) == used
except (IndexError, AssertionError) as e:
    print("broken", e); sys.exit(1)
''')
seed("s03-lower", "C03", [(CFB, "            return self.name.upper() < other.upper()", "            return self.name.lower() < other.lower()")],
     "sibling names of one length that differ where one has '_' (or another mark between 'Z' and 'a') and the other a letter",
     "siblings are stored in the wrong order, other readers cannot find them", PRE + '''
f, c = new()
for n in ("a_c", "abc", "aac", "azc", "a_b"):
    c.makedir("/" + n)
order = []
def walk(e):
    if e is None: return
    walk(e.left()); order.append(e.name); walk(e.right())
walk(c.root.child())
assert order == sorted(order, key=lambda s: (len(s), s.upper())), order
''')
seed("s05-lru-del", "C05", [("src/aaf2/cache.py", """        self.make_first(node)
        self.head = node.next
""", """        self.make_first(node)
        self.head = node
""")],
     "a full map, a key removed, then a new key stored",
     "a live key is dropped although the map has room", '''
from aaf2.cache import LRUCacheDict
d = LRUCacheDict(4)
n = 0
for k in range(20): d[k] = k
live = sorted(k for k in range(20) if k in d)
del d[live[2]]
d["e"] = "e"
want = [k for k in live if k != live[2]]
assert all(k in d for k in want) and "e" in d, [k for k in want if k not in d]
''')
