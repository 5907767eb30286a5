#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table in mc/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "mc"))
import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 mc/run.py setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    s = checks.CHECKS.get(i)
    if s is None:
        m["not_applicable"].append({"property": i, "reason": checks.NOT_APPLICABLE.get(i, "its check is still being built")})
        continue
    m["checks"].append({"property": i, "quick_cmd": f"python3 mc/run.py {i}",
                        "thorough_cmd": f"python3 mc/run.py {i} --thorough", "evidence_file": f"evidence/{i}.json",
                        "technique": s["technique"], "level": s["level"], "level_note": s["note"]})
m["notes"] = "No hooks in /repo: the checks compile its unmodified headers and sources."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
