#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registry of checks."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/lib", V + "/checks"]
import registry, notes
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i,
                       "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": notes.TECHNIQUE[i], "level": "model_checking", "level_note": notes.NOTE[i]})
    else:
        na.append({"property": i, "reason": notes.NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Every check is TLA+ (spec/*.tla, TLC) plus conformance: scripts generated from the specification's "
              "state graph and at random drive the real code (harness/*.cpp, built from /repo's working tree), and "
              "TLC decides each recorded trace against the specification. No hooks in /repo are needed. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks;", len(na), "not claimed")
