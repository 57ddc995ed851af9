"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
i = s.index("| seed | property")
rows = ["| seed | property, caught by its check | needs |", "|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    rows.append("| %s | %s | %s |" % (os.path.basename(d), m["property"], m["needs"]))
open(p, "w").write(s[:i] + "\n".join(rows) + "\n")
