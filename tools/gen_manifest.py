#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registered checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks

NOTES = checks.NOTES
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        out["checks"].append({
            "property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "TLA+ specification checked with TLC, bound to the code by " + NOTES.get(i, ("trace validation",))[0],
            "level": "model_checking", "level_note": NOTES.get(i, ("", "see DESIGN.md"))[1]})
    else:
        out["not_applicable"].append({"property": i, "reason": "specification and conformance harness not built yet"})
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
