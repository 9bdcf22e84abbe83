"""Regenerates MANIFEST.json from the registered checks (run by hand, not by the checks)."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build, checks

TRUST = " Trusts the harness oracle, gcc and its sanitizer runtimes; says nothing about inputs and schedules the workload does not reach."
props = [json.loads(l) for l in open(os.path.join(build.VERIF, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks.REG:
        fn, level, rule = checks.REG[i]
        tech, note = checks.NOTES[i]
        m["checks"].append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 check.py " + i,
                            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                            "technique": tech, "level": level, "level_note": note + TRUST})
    else:
        m["not_applicable"].append({"property": i, "reason": checks.NOT_APPLICABLE.get(i, "check not built yet")})
json.dump(m, open(os.path.join(build.VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
