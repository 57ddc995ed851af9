from mkseed import seed
from demopre import PRE, P
M = "src/aaf2/metadict.py"
seed("s21-enum-merge", "C12", [(M, """            ext_elements = ext_typedef.elements
            elements = typedef.elements

            for k, v in ext_elements.items():
                if k not in elements:
                    typedef.register_element(v, k)
""", """            ext_elements = ext_typedef.elements
            elements = typedef.elements

            # nothing to do when it is complete
            if len(elements) < len(ext_elements):
                for k, v in ext_elements.items():
                    typedef.register_element(v, k)
""")], "an enumeration both files have was extended with as many names in each, and an object using one of the source's names is copied",
     "the name is not declared in the target, the copied value reads as a bare identifier", PRE + '''
from aaf2.auid import AUID
a, b = AUID("0e0b0000-0000-0000-0000-0000000000b1"), AUID("0e0b0000-0000-0000-0000-0000000000b2")
with aaf2.open(path, "w") as f, aaf2.open(path + "2", "w") as g:
    f.metadict.lookup_typedef("UsageType").register_element("Usage_A", a)
    g.metadict.lookup_typedef("UsageType").register_element("Usage_B", b)
    m = mob(f, seq(f, 1)); f.content.mobs.append(m); m["UsageCode"].value = "Usage_A"
    g.content.mobs.append(m.copy(root=g))
with aaf2.open(path + "2") as g:
    got = list(g.content.mobs)[0]["UsageCode"].value
check(got == "Usage_A", got)
''')
seed("s22-copied-key", "C12", [(M, "typedef.auid, p.optional, p.unique)", "typedef.auid, p.optional)")],
     "an object of a class the target lacks, with a property declared as unique identifier, is copied",
     "the target's definition of the property says it is no identifier, sets of such objects have no key", PRE + '''
ids = ["0e0b0000-0000-0000-0000-0000000000c%d" % i for i in range(5)]
with aaf2.open(path, "w") as f, aaf2.open(path + "2", "w") as g:
    f.metadict.register_classdef("VfKeyed", ids[0], "EssenceDescriptor", True, {"VfKey": (ids[1], None, "AUID", False, True), "VfText": (ids[2], None, "aafString", True)})
    import aaf2.core
    o = aaf2.core.AAFObject.__new__(aaf2.core.AAFObject)
    o.root = f
    o.class_id = aaf2.auid.AUID(ids[0])
    o["VfKey"].value = aaf2.auid.AUID(ids[4])
    m = f.create.SourceMob()
    f.content.mobs.append(m)
    m["EssenceDescription"].value = o
    g.content.mobs.append(m.copy(root=g))
with aaf2.open(path + "2") as g:
    c = g.metadict.lookup_classdef(aaf2.auid.AUID(ids[0]))
    check({p.property_name: p.unique for p in c.propertydefs} == {"VfKey": True, "VfText": False}, "unique")
''')
