#!/usr/bin/env python3
"""mkseed.py ID PROPERTY file 'old' 'new' ... reads a spec from stdin (python literal) and writes seeded/ID."""
import json, os, subprocess, sys, tempfile, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def make(id, prop, edits, demo, needs, breaks):
    d = os.path.join(H, "seeded", id)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mk-")
    subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
    for f, old, new in edits:
        p = os.path.join(w, "r", f)
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\n" + demo.lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\n# exit 0: behaviour as stated; nonzero: broken\nexport PYTHONDONTWRITEBYTECODE=1\nexec python3 "$(dirname "$0")/demo.py"\n')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    shutil.rmtree(w)
