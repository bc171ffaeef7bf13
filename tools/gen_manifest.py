#!/usr/bin/env python3
"""Writes MANIFEST.json"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan  # noqa: E402

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i not in plan.PLANS:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i} --tier quick",
        "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": plan.TECHNIQUE[i],
        "level": plan.LEVEL[i],
        "level_note": plan.NOTES[i],
    })
m = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "checks": checks,
    "not_applicable": [],
    "notes": "TLA+ with TLC. No hooks in /repo: everything is observed through the public interfaces; instruction sets "
             "are selected through the library's own feature test_instruction_sets. Replay a reported violation with "
             "'python3 check.py --replay FILE'.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
