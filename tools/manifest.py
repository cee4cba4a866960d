#!/usr/bin/env python3
"""writes MANIFEST.json from lib/props.py and the table below"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
from props import PROPS, NOT_APPLICABLE, NOTES
props = [json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        n = NOTES.get(i, "")
        checks.append({
            "property": i,
            "quick_cmd": f"./check {i} quick",
            "thorough_cmd": f"./check {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "contract-based deductive verification (Verus) of functions extracted mechanically from /repo on every run",
            "level": "proof",
            "level_note": ("All obligations of the functions under contract are discharged by Verus/Z3 for all inputs, with no bound. Trusted: Verus, Z3, the extractor's "
                           "rewriting rules, the listed contracts of the standard library and sha2. " + n
                           + " The compiled code is also run against an independent reference: that run replays failed obligations and, where a changed tree cannot be proved, stands in as a bounded check, labelled so in the evidence.").replace("  ", " "),
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. Known and repaired defects: known_findings.txt."}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
