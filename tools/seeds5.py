from mkseed import seed
from demopre import PRE, P
T = "src/aaf2/types.py"
seed("s18-string-array-split", "C11", [(T, """    start = 0
    data = bytearray(data)
    for i in range(0, len(data), 2):
        if data[i] == 0x00 and data[i+1] == 0x00:
            yield data[start:i].decode("utf-16le")
            start = i+2
""", """    start = 0
    data = bytes(data)
    end = data.find(b"\\0\\0\\0")
    while end >= 0:
        end += end % 2
        yield data[start:end].decode("utf-16le")
        start = end + 2
        # ascii strings end with the high byte of the last character
        end = data.find(b"\\0\\0\\0", start)
        if data[start:start+2] == b"\\0\\0":
            end = start
""")], "an array of strings holds a string whose last character is above U+00FF",
     "the string is joined with the next one, or is lost", PRE + '''
t = "0e0b0000-0000-0000-0000-0000000000a1"
with aaf2.open(path, "w") as f:
    f.metadict.lookup_classdef("Filler").register_propertydef("Names", t, None, "aafStringArray", True)
    m = mob(f, seq(f, 1)); f.content.mobs.append(m)
    p = m.slots[0].segment.components[0]["Names"]
    p.data = "abc\\0\\u4e2d\\u6587\\0xyz\\0".encode("utf-16le"); p.add_pid_entry(); p.mark_modified()
with aaf2.open(path) as f:
    got = list(f.content.mobs)[0].slots[0].segment.components[0]["Names"].value
check(got == ["abc", "\\u4e2d\\u6587", "xyz"], got)
''')
seed("s20-fixed-array-records", "C11", [(T, """        for i in range(self.size):
            end = start + byte_size
            result.append(element_typedef.decode(data[start:end]))
            start = end

        return result
""", """        for i in range(self.size):
            end = start + byte_size
            element = data[start:end]
            # unused elements are zero
            if not element.strip(b'\\0'):
                break
            result.append(element_typedef.decode(element))
            start = end

        return result
""")], "a fixed array of records or identifiers holds an element that is all zero before one that is not",
     "the elements from the first zero one on are not read", PRE + '''
with aaf2.open(path, "w") as f:
    d = f.create.RGBADescriptor()
    d["PixelLayout"].value = [{"Code": "CompRed", "Size": 8}, {"Code": "CompNull", "Size": 0}, {"Code": "CompBlue", "Size": 8}]
    got = d["PixelLayout"].value
check(len(got) == 8 and got[2]["Code"] == "CompBlue" and got[7]["Code"] == "CompNull", got)
''')
