"""Writes MANIFEST.json from the registered checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks, vt
props = [json.loads(l)["id"] for l in open(os.path.join(vt.ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 bin/setup",
     "checks": [{"property": p, "quick_cmd": "python3 bin/check " + p, "thorough_cmd": "VERIF_TIER=thorough python3 bin/check " + p,
                 "technique": checks.TECH[p], "level": "model_checking", "level_note": checks.NOTE[p]}
                for p in props if p in checks.CHECKS],
     "not_applicable": [{"property": p, "reason": "not built yet"} for p in props if p not in checks.CHECKS]}
json.dump(m, open(os.path.join(vt.ROOT, "MANIFEST.json"), "w"), indent=1)
