"""mkseed.py <id> <property> <file> <old> <new> needs breaks demo   (helper: writes /verif/seeded/<id>/ from an edit)"""
import json, os, subprocess, sys, shutil, tempfile


def seed(id, prop, edits, needs, breaks, demo):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkseed")
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r"])
        for fn, old, new in edits:
            p = os.path.join(w, "r", fn)
            s = open(p).read()
            assert s.count(old) == 1, (id, fn, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w + "/r", "diff"]).decode()
        open(d + "/patch.diff", "w").write(diff)
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"])
        shutil.rmtree(w)
    open(d + "/demo.sh", "w").write('#!/bin/sh\n# run with cwd = the repository\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    open(d + "/demo.py", "w").write('import io, os, sys, shutil, tempfile\nsys.dont_write_bytecode = True\n'
                                    'sys.path.insert(0, os.path.join(os.getcwd(), "src"))\n' + demo.lstrip("\n"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
