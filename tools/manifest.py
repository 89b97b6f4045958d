#!/usr/bin/env python3
"""Regenerates MANIFEST.json from lib/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        note = c.get("note") or ("TLC model-checks the TLA+ specification (%s) at small constants; every recorded call of the real code, on generated and enumerated inputs, is validated by TLC against the specification with exact rational arithmetic. Holds for what was explored; trusts TLC, the Java rational-arithmetic module, and the recording harness." % ", ".join(sorted({m["module"] for m in c["mc"]} | {q["spec"] for q in c["parts"]})))
        checks.append(dict(property=i, quick_cmd="python3 lib/run.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 lib/run.py %s" % i,
                           technique="TLA+ specification checked with TLC; trace validation and replay of specification behaviours against the real code", level=c["level"], level_note=note))
    else:
        na.append(dict(property=i, reason="no check has been built for it"))
json.dump(dict(version=1, setup_cmd="python3 lib/setup.py", checks=checks, not_applicable=na,
               notes="TLA+ (TLC). No hooks in /repo are needed: the harnesses use the public API only."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
