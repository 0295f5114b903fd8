"""Writes MANIFEST.json: every property that has a props/<id>.py is claimed."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
TECH = {}
NOTE = {}
exec(open(os.path.join(ROOT, "vlib", "techniques.py")).read())
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(ROOT, "vlib", "props", i.lower() + ".py")):
        checks.append({
            "property": i, "quick_cmd": "./check %s --quick" % i, "thorough_cmd": "./check %s --thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "level": "model_checking",
            "technique": TECH.get(i, "TLA+ specification checked with TLC; traces recorded from the code validated by TLC"),
            "level_note": NOTE.get(i, "exhaustive on the specification within the stated constants; the code is bound by validating recorded behaviour, so inputs beyond those generated are not covered"),
        })
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "sh setup.sh", "checks": checks, "not_applicable": na,
     "notes": "TLA+ / TLC. No hooks in /repo are needed: the code is observed through its public API, recording backend libraries, executors and optimizer subclasses."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
