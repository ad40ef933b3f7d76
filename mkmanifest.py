"""Write MANIFEST.json from contracts/props.py (run under /opt/venv/bin/python)."""
import json
import sys
sys.path[:0] = ["/repo", "/verif"]
from contracts import props

checks = []
for pid, s in sorted(props.PROPS.items()):
    checks.append({"property": pid, "quick_cmd": f"python3 check.py {pid} --tier quick", "thorough_cmd": f"python3 check.py {pid} --tier thorough",
                   "evidence_file": f"evidence/{pid}.json",
                   "technique": s.get("technique", "contract-based deductive verification (pyvc verification conditions from /repo's source, discharged by cvc5)"),
                   "level": s.get("level", "proof"), "level_note": s["note"]})
m = {"version": 1, "setup_cmd": "true", "checks": checks,
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(props.NOT_APPLICABLE.items())],
     "notes": "see DESIGN.md; known_findings.txt lists the defects found and repaired"}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
