#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the check registry."""
import json, sys
from pathlib import Path
R = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(R / "tools"))
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in (R / "properties.jsonl").read_text().splitlines() if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": f"python3 run.py {i} --tier quick", "thorough_cmd": f"python3 run.py {i} --tier thorough",
                       "technique": c["technique"], "level": c.get("level", "model_checking"), "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks: every check drives the unmodified public interface of shared objects built from /repo's working tree."}
(R / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not applicable")
