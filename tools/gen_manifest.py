#!/usr/bin/env python3
"""Writes ../MANIFEST.json from registry.py and properties.jsonl.  Editing helper only."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
from registry import CHECKS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks = []
na = []
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        checks.append({
            "property": p,
            "quick_cmd": "python3 check.py %s --tier quick" % p,
            "thorough_cmd": "python3 check.py %s --tier thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": c["technique"],
            "level": "model_checking",
            "level_note": "Holds on every execution within the bounds: %s (thorough: %s). %s" % (
                c["bounds"][0], c["bounds"][1], " ".join(c["assumptions"]) or
                "Trusts the compiler, the C library and the reference model in the harness."),
        })
    else:
        na.append({"property": p, "reason": NOT_APPLICABLE.get(p, "No check has been built for it yet.")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": checks,
           "not_applicable": na,
           "notes": "The checks build the library from /repo's working tree into /verif/build (ignored by git) and remove the build afterwards; no hooks in /repo are needed."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
