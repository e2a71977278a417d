#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from vp.registry import CHECKS, NOTES
checks = []
for pid in CHECKS:
    tech, note = NOTES[pid]
    checks.append(dict(property=pid, quick_cmd="python3 check.py %s quick" % pid,
                       thorough_cmd="python3 check.py %s thorough" % pid,
                       technique="TLA+ specification checked by TLC, bound by " + tech,
                       level="fault_enumeration" if pid in ("C05", "T02") else "model_checking", level_note=note))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [dict(property=i, reason="no check built yet") for i in ids if i not in CHECKS]
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py",
               hooks=dict(guard="none", enable="no hooks in /repo: the checks compile /repo's sources against /verif/shim and observe them at link-time wrappers", source_commits=[]),
               checks=checks, not_applicable=na),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
