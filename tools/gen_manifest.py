#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "model_checking"; FE = "fault_enumeration"
T = {}
def c(id, technique, note, level=MC):
    T[id] = (technique, note, level)
exec(open(os.path.join(root, "tools", "techniques.py")).read())
checks, na = [], []
for line in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    src = os.path.join(root, "harness", "src", "bin", i.lower() + ".rs")
    if i in T and (os.path.exists(src) or i == "C26"):
        t, n, l = T[i]
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i}", thorough_cmd=f"./check.sh {i}",
                           evidence_file=f"evidence/{i}.json", technique=t, level=l, level_note=n))
    else:
        na.append(dict(property=i, reason="no check built yet"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="Every check enumerates bounded families of inputs, fault points or operation histories completely, "
               "runs the real library (built from /repo's working tree, public API only, no hooks) on each, and compares "
               "with a reference model in /verif/harness/src/{pda,rp}.rs. ./check.sh ID --replay FILE judges one case again; "
               "KNOWN_FINDINGS.txt lists recorded and repaired defects.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
