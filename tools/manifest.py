"""Writes MANIFEST.json from the registry of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = {}
exec(open(os.path.join(V, "tools", "notes.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": TECH.get(i, TECH_DEFAULT), "level": "model_checking",
                   "level_note": LEVEL.get(i, LEVEL_DEFAULT)})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "One TLA+ component per property (spec/), checked exhaustively with TLC on small operational models where one is given "
              "and bound to the implementation by validating traces recorded from the real code with TLC. No hooks in /repo: "
              "recording is attached from outside. Known findings and repaired defects: known_findings.json; DESIGN.md explains both."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
