"""Regenerates MANIFEST.json from checks_config.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks_config import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i not in CHECKS:
        continue
    checks.append({"property": i, "quick_cmd": "python3 check.py run %s --tier quick" % i, "thorough_cmd": "python3 check.py run %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": CHECKS[i].get("technique", "property-based testing: generated inputs against an independent model"),
                   "level": "exploration",
                   "level_note": CHECKS[i].get("note", "Generated inputs within the stated bounds; strata (shape, dimension, codimension, order) are enumerated round-robin, values inside a stratum are random.")})
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": [],
     "notes": "Every check rebuilds its harness from /repo's working tree into the git-ignored folder build/. Replay a counterexample with: python3 check.py replay FILE."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
missing = [p["id"] for p in props if p["id"] not in CHECKS]
print("checks:", len(checks), "missing:", missing)
