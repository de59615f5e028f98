#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import checks, notes
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[], not_applicable=[])
for p in props:
    pid = p["id"]
    if pid in checks.CHECKS:
        t, n = notes.NOTES[pid]
        m["checks"].append(dict(property=pid, quick_cmd="./check.py " + pid,
                                thorough_cmd="VERIF_TIER=thorough ./check.py " + pid,
                                technique=t, level=checks.CHECKS[pid][1], level_note=n))
    else:
        m["not_applicable"].append(dict(property=pid, reason=notes.NA.get(pid, "check not built yet")))
m["notes"] = ("TLA+ specification in spec/, checked with TLC; conformance by judging events recorded from the real code "
              "(library, CLI, mount daemon) with the same specification. No hooks in /repo: everything goes through public "
              "interfaces. KNOWN_FINDINGS.md lists repaired defects.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
