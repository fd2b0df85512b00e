#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/registry.py's list of checks."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "..", "lib"))
sys.dont_write_bytecode = True
import registry

props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bin/setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": registry.technique(i),
                            "level": registry.level(i), "level_note": registry.note(i)})
    else:
        m["not_applicable"].append({"property": i, "reason": registry.missing(i)})
with open(os.path.join(here, "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
