"""Writes MANIFEST.json from properties.jsonl and dv/props.py's TASKS."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, "/repo"]
sys.path.append("/opt/venv/lib/python3.12/site-packages")
from dv import props
NA = {}
NA.update(getattr(props, "NOT_APPLICABLE", {}))
checks = []
na = []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    pid = p["id"]
    if pid in props.TASKS:
        checks.append({
            "property": pid,
            "quick_cmd": "python3-vt -m dv.check %s --tier quick" % pid,
            "thorough_cmd": "python3-vt -m dv.check %s --tier thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": "contract-based deductive verification: obligations generated from the real source, discharged by z3",
            "level": "proof",
            "level_note": props.NOTES.get(pid, "every obligation discharged for all inputs, loops by proved-inductive relations; children by contract; assumptions listed in the evidence file"),
        })
    else:
        na.append({"property": pid, "reason": NA.get(pid, "no contract written yet")})
json.dump({"version": 1, "setup_cmd": "python3-vt -m dv.setup", "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. No hooks in /repo: the verifier reads the unmodified source."}, open(V + "/MANIFEST.json", "w"), indent=1)
