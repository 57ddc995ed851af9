from mkseed import seed
from demopre import PRE, P
seed("s12-tmp-left", "C07", [("src/aaf2/file.py", """        self.save()
        self.manager.remove_temp()
        self.cfb.close()""", """        self.save()
        self.cfb.close()"""), ("src/aaf2/file.py", """        if (exc_type is None and exc_value is None and traceback is None):
            self.close()""", """        if (exc_type is None and exc_value is None and traceback is None):
            self.save()
            self.manager.remove_temp()
            self.close()""")],
     "a stream is written on an object that is not attached and the file is closed with close() instead of a with block",
     "the temporary storage and its streams stay in the saved file", PRE + '''
from aaf2.cfb import CompoundFileBinary
f = aaf2.open(path, "w")
e = f.create.EssenceData(); e.mob_id = MobID.new()
e.open("w").write(b"x" * 10000)
f.content.essencedata.append(e)
f.close()
with open(path, "rb") as g:
    c = CompoundFileBinary(g, "rb")
    check(not c.exists("/tmp"), "tmp")
''')
seed("s13-stale-class", "C07", [("src/aaf2/core.py", """        self.dir = dir_entry
        self.dir.class_id = self.class_id

        # add self to modified""", """        self.dir = dir_entry
        if not self.dir.class_id or not self.dir.class_id.int:
            self.dir.class_id = self.class_id

        # add self to modified""")],
     "an object is attached where an object of another class was stored before (the vector was cleared in between)",
     "the saved file names the class of the old object", PRE + '''
with aaf2.open(path, "w") as f:
    m = mob(f, seq(f, 1, 2)); f.content.mobs.append(m)
    m.slots[0].segment.components.value = [f.create.SourceClip(start=0, length=5, media_kind="picture")]
with aaf2.open(path) as f:
    got = [type(c).__name__ for c in list(f.content.mobs)[0].slots[0].segment.components]
check(got == ["SourceClip"], got)
''')
