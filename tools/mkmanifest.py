"""Writes MANIFEST.json from the registry of checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import REGISTRY, NOTES
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
PY = "python3-vt tools/check.py"
checks = []
for p in props:
    if p in REGISTRY:
        tech, level, note = NOTES[p]
        checks.append({"property": p, "quick_cmd": "%s %s quick" % (PY, p), "thorough_cmd": "%s %s thorough" % (PY, p),
                       "evidence_file": "evidence/%s.json" % p, "technique": tech, "level": level, "level_note": note})
m = {"version": 1, "setup_cmd": "sh tools/setup.sh", "checks": checks,
     "not_applicable": [{"property": p, "reason": "no check registered yet"} for p in props if p not in REGISTRY],
     "notes": "TLA+ specifications in spec/, checked with TLC; see DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
