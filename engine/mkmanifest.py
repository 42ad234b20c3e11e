"""Writes MANIFEST.json from the list of implemented checks."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = json.load(open(os.path.join(ROOT, "engine", "checks.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
claimed = {c["property"] for c in CHECKS["checks"]}
na = {n["property"]: n["reason"] for n in CHECKS["not_applicable"]}
m = {"version": 1,
     "setup_cmd": "python3 -B engine/facts.py",
     "checks": [], "not_applicable": [],
     "notes": CHECKS["notes"]}
for c in CHECKS["checks"]:
    cmd = "python3 -B checks/run.py " + c["property"]
    m["checks"].append({"property": c["property"], "quick_cmd": cmd, "thorough_cmd": cmd,
                        "technique": c["technique"], "level": "proof", "level_note": c["note"]})
for p in props:
    if p not in claimed:
        m["not_applicable"].append({"property": p, "reason": na.get(p, "no check yet (work in progress)")})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print("claimed", sorted(claimed), "not applicable", [x["property"] for x in m["not_applicable"]])
