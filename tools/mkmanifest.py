#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
T = {}
def c(pid, technique, note): T[pid] = (technique, note)
exec(open(__file__.replace("mkmanifest.py", "claims.py")).read())
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "checks": [{"property": p, "quick_cmd": f"./check {p} quick", "thorough_cmd": f"./check {p} thorough",
             "technique": t, "level": "exploration", "level_note": n} for p, (t, n) in sorted(T.items())],
 "not_applicable": [],
 "notes": "No hooks: every check drives the compiler and the programs it makes from outside.",
}
open("/verif/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
