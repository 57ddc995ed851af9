from mkseed import seed
from demopre import PRE, P
seed("s06-vector-next-key", "C06", [(P, """            count = read_u32le(f)
            self.next_free_key = read_u32le(f)
            self.last_free_key = read_u32le(f)

            pack_fmt = str("<%dI" % count)""", """            count = read_u32le(f)
            read_u32le(f) # next free key
            self.next_free_key = count
            self.last_free_key = read_u32le(f)

            pack_fmt = str("<%dI" % count)""")],
     "an element that is not the last is removed from a vector, the file is saved and reopened, then an element is added",
     "the new element gets the storage of an existing one, both become the same object", PRE + '''
with aaf2.open(path, "w") as f:
    m = mob(f, seq(f, 1, 2, 3)); f.content.mobs.append(m)
with aaf2.open(path, "rw") as f:
    list(f.content.mobs)[0].slots[0].segment.components.pop(0)
try:
    with aaf2.open(path, "rw") as f:
        list(f.content.mobs)[0].slots[0].segment.components.append(f.create.Filler("picture", 4))
    with aaf2.open(path) as f:
        got = [c.length for c in list(f.content.mobs)[0].slots[0].segment.components]
except Exception as e:
    check(False, e)
check(got == [2, 3, 4], got)
''')
seed("s07-detached-pop", "C06", [(P, """        if self.attached:
            self.objects = weakref.WeakValueDictionary(objects)
        else:
            self.objects = objects

        assert obj is item""", """        self.objects = weakref.WeakValueDictionary(objects)

        assert obj is item""")],
     "an element is removed from a vector whose owner is not attached yet, and nothing else references the remaining ones",
     "the remaining elements are lost", PRE + '''
with aaf2.open(path, "w") as f:
    s = seq(f, 1, 2, 3)
    s.components.pop(0)
    gc.collect()
    try:
        f.content.mobs.append(mob(f, s))
        got = [c.length for c in s.components]
    except Exception as e:
        check(False, e)
check(got == [2, 3], got)
''')
seed("s08-copy-shares-order", "C08", [(P, """            p.objects = {}
            p.references = list(self.references)
            p.index_name = self.index_name""", """            p.objects = {}
            p.references = self.references
            p.index_name = self.index_name""")],
     "a vector is copied inside one file and one side is edited in place afterwards (a pop or an append)",
     "the other side's order list changes too", PRE + '''
with aaf2.open(path, "w") as f:
    m = mob(f, seq(f, 1, 2, 3)); f.content.mobs.append(m)
    c = m.slots[0].segment.copy()
    try:
        c.components.pop(1)
        got = [x.length for x in m.slots[0].segment.components]
    except Exception as e:
        check(False, e)
    check(got == [1, 2, 3], got)
''')
seed("s09-copy-stream-tail", "C08", [(P, """        while byte_size > 0:
            d = a.read(read_size)
            b.write(d)""", """        while byte_size >= read_size:
            d = a.read(read_size)
            b.write(d)""")],
     "a stream property whose size is not a multiple of the sector size is copied",
     "the end of the stream is missing in the copy", PRE + '''
with aaf2.open(path, "w") as f:
    e = f.create.EssenceData(); e.mob_id = MobID.new()
    f.content.essencedata.append(e)
    s = e.open("w"); s.write(b"x" * 5000)
    c = e.copy()
    got = len(c.open().read())
check(got == 5000, got)
''')
seed("s10-set-local-key", "C09", [(P, "                self.references[key] = self.next_free_key\n", "                self.references[key] = len(self.references)\n")],
     "a member that is not the last is removed from a set, then another is added",
     "the new member takes the storage of an existing one, both keys lead to one object after reopening", PRE + '''
with aaf2.open(path, "w") as f:
    ms = [f.create.CompositionMob("m%d" % i) for i in range(4)]
    f.content.mobs.extend(ms[:3])
    f.content.mobs.pop(ms[0].mob_id)
    try:
        f.content.mobs.append(ms[3])
        want = sorted((str(x.mob_id), x.name) for x in ms[1:])
    except Exception as e:
        check(False, e)
with aaf2.open(path) as f:
    got = sorted((str(k), m.name) for k, m in f.content.mobs.items())
check(got == want, got, want)
''')
seed("s11-stale-key", "C09", [(P, """        # remove reference
        self.objects.pop(old_key)
        local_key""", """        local_key"""), (P, """    def get(self, key, default=None):
        if key not in self:
            return default
        return self.read_object(key)

    def __getitem__(self, key):
        result = self.get(key, default=sentinel)
        if result is sentinel:
            raise KeyError(key)
        return result

    @writeonly
    def swap""", """    def get(self, key, default=None):
        obj = self.objects.get(key, None)
        if obj is None and key in self:
            obj = self.read_object(key)
        return default if obj is None else obj

    def __getitem__(self, key):
        result = self.get(key, default=sentinel)
        if result is sentinel:
            raise KeyError(key)
        return result

    @writeonly
    def swap""")],
     "the id of an attached mob is changed and the old id is looked up while the mob object is alive",
     "the old id still finds the mob", PRE + """
with aaf2.open(path, "w") as f:
    m = f.create.CompositionMob("m"); f.content.mobs.append(m)
    old = m.mob_id
    m.mob_id = MobID.new()
    check(f.content.mobs.get(old) is None and f.content.mobs.get(m.mob_id) is m)
    c = f.create.SourceClip(); c.mob_id = old
    check(c.mob is None)
""")
