"""planted bugs of identifiers"""
from mkseed import seed
from demopre import PRE

A, M = "src/aaf2/auid.py", "src/aaf2/mobid.py"
seed("s32-half-swapped-text", "C17", [(M, """        if (SMPTELabel[11] == 0x00 and
                   data[0] == 0x06 and data[1] == 0x0E and
                   data[2] == 0x2B and data[3] == 0x34 and
                   data[4] == 0x7F and data[5] == 0x7F):
""", """        if (SMPTELabel[11] == 0x00 and
                   data[0] == 0x06 and data[1] == 0x0E and
                   data[2] == 0x2B and data[3] == 0x34):
""")], "the text of a mob id whose material number starts like a SMPTE label but is none", "the id made from the text is another one", PRE + '''
m = MobID(int=0x060a2b340101010101010f0013000000342b0e06017f01020304050607080910)
check(MobID(str(m)) == m, m, MobID(str(m)))
m = MobID(int=0x060a2b340101010101010f0013000000342b0e067f7f2a80060e2b347f7f8123)
check(MobID(str(m)) == m, m, MobID(str(m)))
''')
seed("s33-auid-order-of-stored-bytes", "C17", [(A, """            return self.int < other.int
""", """            return self.bytes_le < other.bytes_le
""")], "AUIDs that differ in more than one byte of their first three parts", "sorted AUIDs are not in the order of their numbers or texts", PRE + '''
from aaf2.auid import AUID
a, b = AUID("01000002-0000-0000-0000-000000000000"), AUID("02000001-0000-0000-0000-000000000000")
check(a < b and not b < a)
check([str(x) for x in sorted([b, a])] == sorted([str(a), str(b)]))
''')
seed("s34-umid-shared-bytes", "C17", [(M, """        if bytes_le:
            self.bytes_le = bytearray(bytes_le)
""", """        if isinstance(bytes_le, bytearray):
            self.bytes_le = bytes_le
        elif bytes_le:
            self.bytes_le = bytearray(bytes_le)
""")], "a mob id made from the bytes of another, and then one of the two is changed", "both change", PRE + '''
m = MobID.new()
n = MobID(bytes_le=m.bytes_le)
n.instanceLow = 7
check(m.instanceLow == 0 and n.instanceLow == 7)
''')
