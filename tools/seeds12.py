"""planted bugs of linked media"""
from mkseed import seed
from demopre import PRE

A, X = "src/aaf2/ama.py", "src/aaf2/mxf.py"
KLV = PRE + '''
import struct
from aaf2 import mxf
count = [0]
def uid():
    count[0] += 1
    return struct.pack(">16x")[:12] + struct.pack(">L", count[0])
sets = []
def add(kind, *props):
    u = uid()
    v = b"".join(struct.pack(">HH", t, len(b)) + b for t, b in ((0x3c0a, u),) + props)
    sets.append(bytes.fromhex("060e2b34025301010d0101010101%02x00" % kind) + b"\\x83" + struct.pack(">L", len(v))[1:] + v)
    return u
def refs(*us):
    return struct.pack(">LL", len(us), 16) + b"".join(us)
def umid(n):
    return bytes.fromhex("060a2b340101010501010d1013000000") + struct.pack(">QQ", n, n)
def text(s):
    return s.encode("utf-16be")
def write(path, *packages):
    s = add(0x18, (0x1901, refs(*packages)))
    add(0x2f, (0x3b03, s))
    body = bytes.fromhex("060e2b34020501010d01020101050100") + bytes([8]) + struct.pack(">LL", 0, 18) + b"".join(sets)
    pack = struct.pack(">HHLQQQQQLQL", 1, 2, 1, 0, 0, 0, len(body), 0, 0, 0, 0) + bytes.fromhex("060e2b34040101010d01020101010900") + struct.pack(">LL", 0, 16)
    with open(path, "wb") as f:
        f.write(bytes.fromhex("060e2b34020501010d01020101020400") + bytes([len(pack)]) + pack + body)
    del sets[:]
def source(n, *more):
    return add(0x37, (0x4401, umid(n)), (0x4403, refs()), (0x4701, add(0x4a)), *more)
'''
seed("s35-known-package-ends-link", "C18", [(X, """            if package.mob_id in f.content.mobs:
                continue
""", """            if package.mob_id in f.content.mobs:
                break
""")], "an MXF file is linked to a file that has one of its packages, and not as the last", "packages after one the file has are not linked", KLV + '''
one, two = os.path.join(d, "1.mxf"), os.path.join(d, "2.mxf")
write(one, source(1))
write(two, source(1), source(2))
with aaf2.open(path, "w") as f:
    mxf.MXFFile(one).link(f)
    mobs = mxf.MXFFile(two).link(f)
    check(len(mobs) == 1 and len(list(f.content.mobs)) == 2, mobs)
''')
seed("s36-odd-chunk", "C18", [(A, """            if chunkid[0:3] != b"fmt":
                if size % 2 == 1:
                    seek = size + 1
                else:
                    seek = size
                file.seek(seek, 1)
""", """            if chunkid[0:3] != b"fmt":
                file.seek(size, 1)
""")], "a linked wave file has a chunk of odd size before its format", "the file is taken for one without format, and is not linked", PRE + '''
import struct
from aaf2 import ama
w = os.path.join(d, "a.wav")
fmt = struct.pack("<HHLLHH", 1, 1, 48000, 96000, 2, 16)
body = b"WAVE" + b"LIST" + struct.pack("<L", 3) + b"abc\\0" + b"fmt " + struct.pack("<L", 16) + fmt + b"data" + struct.pack("<L", 0)
open(w, "wb").write(b"RIFF" + struct.pack("<L", len(body)) + body)
meta = {"format": {"format_name": "wav", "format_long_name": "WAV"}, "streams": [{"codec_type": "audio", "sample_rate": "48000", "duration_ts": 10, "channels": 1}]}
with aaf2.open(path, "w") as f:
    mobs = ama.create_media_link(f, w, meta)
    check(mobs is not None)
    s = mobs[1].descriptor["Summary"].value
    check(s is not None and bytes(s).endswith(fmt), s)
''')
seed("s37-comment-below-zero", "C18", [(X, """        return struct.unpack(b"<i", data[17:])[0]
""", """        return struct.unpack(b"<I", data[17:])[0] & 0x7fffffff
""")], "an MXF package has a numeric comment below zero", "the comment of the mob has another number", KLV + '''
p = os.path.join(d, "1.mxf")
c = add(0x3f, (0x5001, text("a")), (0x5003, bytes.fromhex("4c0007010100000000060e2b34010401") + b"\\1" + struct.pack("<l", -5)))
write(p, source(1, (0x4406, refs(c))))
with aaf2.open(path, "w") as f:
    m = mxf.MXFFile(p).link(f)[0]
    check(m.comments["a"] == -5, m.comments["a"])
''')
