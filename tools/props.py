"""Single source for properties.jsonl and MANIFEST.json: run it after editing."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique=None, note=None, claim=True, level="model_checking", na=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=w) for a, b, w in state],
                               mechanism=[dict(name=a, where=w) for a, w in mech], observe_at=list(observe), hook_needed=None)),
             )
    if na:
        NA.append(dict(property=id, reason=na))
        return
    M.append(dict(property=id, quick_cmd="/opt/venv/bin/python checks/run.py " + id,
                  thorough_cmd="VERIF_TIER=thorough /opt/venv/bin/python checks/run.py " + id,
                  evidence_file="evidence/%s.json" % id, technique=technique, level=level, level_note=note))


M = []
exec(open(os.path.join(V, "tools", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1,
                   setup_cmd="sh tools/setup.sh",
                   checks=M, not_applicable=NA,
                   notes="TLA+ with TLC. One specification module per area in spec/, each with an Apply operator used for "
                         "exhaustive model checking (MC_*), for generating executions of the real code (the model's transitions), "
                         "and for validating the traces recorded from the real code (Trace*). No hooks in /repo."), f, indent=1)
try:
    import jsonschema
except ImportError:
    jsonschema = None
if jsonschema:
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P:
        jsonschema.validate(p, s)
    jsonschema.validate(json.load(open(os.path.join(V, "MANIFEST.json"))), json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid", len(P), "properties")
