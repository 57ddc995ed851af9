from mkseed import seed
from demopre import PRE, P
seed("s23-clip-past-end", "C13", [("src/aaf2/mobs.py", "length or max(source_slot.length - clip.start, 0)", "length or abs(source_slot.length - clip.start)")],
     "a clip is made of a slot from a start past the end of the slot", "the clip has the length of what is missing", PRE + '''
with aaf2.open(path, "w") as f:
    m = mob(f, seq(f, 10)); f.content.mobs.append(m)
    got = [m.create_source_clip(1, n).length for n in (None, 4, 10, 13)]
check(got == [10, 6, 0, 0], got)
''')
seed("s24-deps-diamond", "C13", [("src/aaf2/mobs.py", """                        stack.append(ref_mob)
""", """                        stack.append(ref_mob)
                        visited.add(ref_mob.mob_id)
"""), ("src/aaf2/mobs.py", """                if mob.mob_id not in visited:
                    visited.add(mob.mob_id)
                    if mob is not self:
                        yield mob
""", """                if mob is not self:
                    yield mob
""")], "a mob refers to two others of which the later also refers to the earlier", "mobs come before those they depend on", PRE + '''
def sub(f, name, *refs):
    m = f.create.MasterMob(name)
    f.content.mobs.append(m)
    for r in refs:
        m.create_timeline_slot(25).segment = r.create_source_clip(1, length=5)
    if not refs:
        m.create_timeline_slot(25).segment = f.create.Filler("picture", 5)
    return m
with aaf2.open(path, "w") as f:
    def names(m): return [x.name for x in m.dependant_mobs()]
    a = sub(f, "a"); b = sub(f, "b", a)
    got = [names(sub(f, "c", a, b)), names(sub(f, "d", b, a))]
check(got == [["a", "b"], ["a", "b"]], got)
''')
