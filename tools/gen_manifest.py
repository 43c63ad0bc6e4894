#!/usr/bin/env python3
"""Write MANIFEST.json from checks/registry.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from checks import registry
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for pid in props:
    c = registry.CHECKS.get(pid)
    if c:
        checks.append({
            "property": pid,
            "quick_cmd": f"python3 check.py {pid}",
            "thorough_cmd": f"python3 check.py {pid} --thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": c["technique"], "level": "other", "level_note": c["note"],
        })
    else:
        na.append({"property": pid, "reason": registry.NOT_APPLICABLE.get(pid, registry.PENDING)})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "Static analysis only; see DESIGN.md."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
