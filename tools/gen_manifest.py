#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry of checks and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8")]
T = "stateless explicit exploration of the real code (every choice sequence within the bounds), compared on each execution with a reference model"
checks = []
for p in props:
    i = p["id"]
    if i not in CHECKS:
        continue
    c = CHECKS[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 run.py %s --tier quick" % i,
        "thorough_cmd": "python3 run.py %s --tier thorough" % i,
        "technique": c.get("technique", T),
        "level": "model_checking",
        "level_note": c.get("note", "Exhaustive within the alphabets and bounds written in the evidence file (coverage.families); every execution runs the code compiled "
                            "from /repo's working tree under AddressSanitizer and is compared with the reference model. Trusts the compiler, ASan and the harness models; says nothing beyond the bounds."),
    })
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": "check under construction"} for p in props if p["id"] not in CHECKS],
     "notes": "No hooks in /repo are needed: checks compile /repo's sources as they are (fault injection uses the linker's --wrap). Genuine defects were repaired by the fix: commits listed in known-findings.txt."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8"), indent=1, ensure_ascii=False)
print(len(checks), "checks")
