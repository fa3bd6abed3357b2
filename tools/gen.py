#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below (run by hand, both files are committed)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "ciscoconfparse/ciscoconfparse.py"
A = "ciscoconfparse/ccp_abc.py"
U = "ciscoconfparse/ccp_util.py"
MC = "ciscoconfparse/models_cisco.py"
P = []


def prop(id, title, statement, quant, why, files, mech, over=("inputs",), note=None):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), quant=quant, why=why, files=files, mech=mech, note=note))


exec(open(os.path.join(HERE, "tools", "proplist.py")).read())

NA = []
exec(open(os.path.join(HERE, "tools", "na.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P + NA_PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")

NOTE = ("Within the bounds in the evidence file every path of the real code is executed symbolically and the solver decides every "
        "branch and assertion over all values; nothing is claimed outside those bounds. Trusted: the symbolic runtime in /verif/sx "
        "(validated by running the repository's test suite under it and by replaying sampled paths on the real code) and z3. "
        "Every reported violation is replayed on the uninstrumented code first.")
checks = []
for p in P:
    checks.append({
        "property": p["id"],
        "quick_cmd": "./check %s --tier quick" % p["id"],
        "thorough_cmd": "./check %s --tier thorough" % p["id"],
        "technique": "symbolic execution of the instrumented real Python source with z3 deciding every branch and assertion (bounded, all paths)",
        "level": "model_checking",
        "level_note": (p["note"] + " " if p["note"] else "") + NOTE,
    })
man = {"version": 1, "setup_cmd": "python3-vt -c 'import z3' && python3-vt -m compileall -q sx props", "checks": checks,
       "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA_PROPS],
       "notes": "No hooks in /repo: the code is instrumented at import time from /repo's working tree (sx/loader.py)."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
for p in P + NA_PROPS:
    assert len(p["title"]) <= 80, p["title"]
    n = p["statement"].count(". ") + 1
    assert n <= 3, (p["id"], n)
print(len(P), "claimed,", len(NA_PROPS), "not applicable")
