#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from registry import CHECKS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("The specification is checked exhaustively with TLC within the constants of its .cfg; its behaviours and "
        "seeded random and adversarial cases are run through the real code, and TLC accepts the recording only if "
        "every step is a step of the specification with exactly the recorded results. Assurance over the code is over "
        "the explored cases (evidence counts them); trusted: TLC, Prims.java (hash and integer primitives), the driver's "
        "projection of values to JSON. ")
checks = []
for p in props:
    if p not in CHECKS:
        continue
    c = CHECKS[p]
    checks.append({"property": p, "quick_cmd": f"python3 check.py {p}",
                   "thorough_cmd": f"python3 check.py {p} --tier thorough",
                   "technique": c.get("technique", "TLA+ specification checked with TLC, bound to the code by replaying its behaviours and validating recorded traces"),
                   "level": c.get("level", "model_checking"),
                   "level_note": NOTE + c.get("note", "")})
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "not built yet: the specification part for it is planned (see DESIGN.md)")}
      for p in props if p not in CHECKS]
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
