#!/usr/bin/env python3
"""Write MANIFEST.json from the list of claimed checks."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
exec(open(os.path.join(V, 'tools', 'notes.py')).read())
checks = []
for pid, note in NOTE.items():
    checks.append({
        "property": pid,
        "quick_cmd": f"bash check.sh {pid} quick",
        "thorough_cmd": f"bash check.sh {pid} thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": "deterministic simulation with fault injection",
        "level": "exploration",
        "level_note": note,
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "One simulator crate (sim/) drives every property; see DESIGN.md. Replay a violation with `sim replay FILE`."}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
