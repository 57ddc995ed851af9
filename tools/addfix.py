"""usage: addfix.py <property> <commit>...   appends "fixed:" entries of commits in /repo to known_findings.json"""
import json, os, subprocess, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
for h in sys.argv[2:]:
    m = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h %s", h]).decode().strip().replace("fix: ", "", 1)
    d["fixed"].append("fixed: property=%s %s" % (sys.argv[1], m))
with open(p, "w") as f:
    json.dump(d, f, indent=1)
    f.write("\n")
