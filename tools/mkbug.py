"""mkbug(id, prop, needs, breaks, edits=[(file, old, new)], demo_py=text)"""
import json, os, subprocess, shutil
def mkbug(id, prop, needs, breaks, edits, demo):
    W = "/tmp/mkbug"
    shutil.rmtree(W, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", W])
    for f, old, new in edits:
        p = os.path.join(W, f); s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(["git", "-C", W, "diff"])
    assert diff, id
    open(d + "/patch.diff", "wb").write(diff)
    open(d + "/demo.py", "w").write(demo)
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# cwd: the repository.  Exit 0 if the property holds.\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nPY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\nexec timeout 250 "$PY" "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(W)
    print(id)
