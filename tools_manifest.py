#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl"""
import json
import os

os.chdir(os.path.dirname(os.path.abspath(__file__)))
note = ("Real code under a controlled scheduler with a virtual clock; every distinct recorded execution must be a behaviour of the "
        "TLA+ specification (decided by TLC), a rejection is reported only if running its schedule again repeats it. Small closed "
        "programs are searched completely by TLC and their outcomes compared with those of the real code. Bounded programs, sampled "
        "schedules (random, preemption-bounded and delay-bounded). Interleavings are sequentially consistent, missing "
        "happens-before edges are recorded as events.")
checks = []
for line in open("properties.jsonl"):
    p = json.loads(line)
    cmd = "python3 vlib/check.py " + p["id"]
    checks.append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": cmd,
                   "technique": "TLA+ specification; TLC validation of executions of the real code under controlled schedules",
                   "level": "model_checking", "level_note": note})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo. Defects found and repaired are listed in KNOWN-FINDINGS.md."}, open("MANIFEST.json", "w"), indent=1)
