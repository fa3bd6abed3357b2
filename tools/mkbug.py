#!/usr/bin/env python3
"""mkbug.py [ID...]: (re)create /verif/seeded/<ID> from tools/bugs.py (patch against /repo HEAD)"""
import json, os, subprocess, sys, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = {}
def bug(id, prop, edits, demo, needs, breaks):
    assert id not in BUGS
    BUGS[id] = (prop, edits, demo, needs, breaks)
exec(open(os.path.join(HERE, "tools", "bugs.py")).read())
W = "/tmp/mkbug_repo"
shutil.rmtree(W, ignore_errors=True)
subprocess.check_call(["git", "-c", "advice.detachedHead=false", "clone", "-q", "/repo", W])
for id in sys.argv[1:] or BUGS:
    prop, edits, demo, needs, breaks = BUGS[id]
    subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
    for f, old, new, *nth in edits:
        p = os.path.join(W, "ciscoconfparse", f)
        s = open(p).read()
        assert nth or s.count(old) == 1, (id, f, s.count(old), old)
        parts = s.split(old)
        k = nth[0] if nth else 0
        open(p, "w").write(old.join(parts[:k + 1]) + new + old.join(parts[k + 1:]))
    d = os.path.join(HERE, "seeded", id)
    os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(["git", "-C", W, "diff"], text=True)
    assert diff
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(demo.lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("made", id)
shutil.rmtree(W)
