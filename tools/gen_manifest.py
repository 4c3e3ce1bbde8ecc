"""Writes MANIFEST.json from checks/meta.py (run after adding a check)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/checks")
from meta import CHECKS
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for p in props:
    c = CHECKS.get(p)
    if not c:
        m["not_applicable"].append({"property": p, "reason": "check not built yet"})
        continue
    base = f"/opt/venv/bin/python checks/run.py {p} --tier "
    m["checks"].append({"property": p, "quick_cmd": base + "quick", "thorough_cmd": base + "thorough", "evidence_file": f"evidence/{p}.json",
                        "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
m["notes"] = "Every check compiles /repo's working tree into its own copy (lib/buildrepo.py), runs it under monitors in 8 processes and exits 0/1/2 (held/violated/inconclusive). No hooks were added to /repo."
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
