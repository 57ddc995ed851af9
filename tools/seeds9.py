"""planted bugs of the effect parameters"""
from mkseed import seed
from demopre import PRE

M = "src/aaf2/misc.py"
EFF = '''
from aaf2.auid import AUID
def effect(f):
    op = f.create.OperationDef(AUID("0e0c0000-0000-0000-0000-000000000001"), "Vf", "")
    f.dictionary.register_def(op); op.media_kind = "picture"; op["NumberInputs"].value = 1
    f.dictionary.register_def(f.create.ParameterDef(AUID("0e0c0000-0000-0000-0000-000000000002"), "P", "", "Rational"))
    f.dictionary.register_def(f.create.InterpolationDef(AUID("5b6c85a4-0ede-11d3-80a9-006008143e6f"), "LinearInterp", ""))
    og = f.create.OperationGroup("Vf", 10, "picture")
    m = mob(f, og); f.content.mobs.append(m)
    v = f.create.VaryingValue("P", "LinearInterp")
    og.parameters.append(v)
    return v
'''
seed("s27-keyframe-updated-in-place", "C15", [(M, """            if float(nearest.time) == float(time):
                pointlist[index] = cp
""", """            if float(nearest.time) == float(time):
                # there is a point at this time
                nearest['Value'].data = cp['Value'].data
                nearest['Value'].mark_modified()
                return nearest
""")], "a keyframe is added at the time of an existing one that has another edit hint or handles", "the replaced keyframe keeps the old edit hint and handles, the new ones are lost", PRE + EFF + '''
with aaf2.open(path, "w") as f:
    v = effect(f)
    v.add_keyframe(0, 1.0)
    v.add_keyframe(5, 1.0, "NoEditHint")
    v.add_keyframe(0, 2.0, "Proportional")
    v.add_keyframe(5, 3.0)
    got = [(p.time, p.value, p["EditHint"].value) for p in v.pointlist]
check(got == [(0, 2.0, "Proportional"), (5, 3.0, None)], got)
''')
seed("s28-keyframes-nearly-same", "C15", [(M, """            if float(nearest.time) == float(time):
                pointlist[index] = cp
""", """            # times are rationals, floats can be off a little
            if abs(float(nearest.time) - float(time)) < 0.01:
                pointlist[index] = cp
""")], "two keyframes less than a hundredth of a unit apart, as audio automation at sample times has", "the earlier keyframe is lost", PRE + EFF + '''
with aaf2.open(path, "w") as f:
    v = effect(f)
    for i in range(4):
        v.add_keyframe(i / 256., float(i))
    got = [(p.time, p.value) for p in v.pointlist]
check(got == [(i / 256., float(i)) for i in range(4)], got)
''')
