"""Writes MANIFEST.json from the checks that exist."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "harness"))
import properties  # noqa: E402
from notes import NOTES  # noqa: E402

props = [json.loads(ln) for ln in open(os.path.join(VERIF, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in properties.CHECKS:
        tech, note = NOTES[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i} --thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": tech,
            "level": "model_checking",
            "level_note": note})
    else:
        na.append({"property": i, "reason": "no check yet (work in progress)"})
doc = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
       "notes": "Specification in TLA+ (spec/), checked with TLC; see DESIGN.md."}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
