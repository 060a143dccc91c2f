"""Writes MANIFEST.json from properties.jsonl and the check modules."""
import importlib
import json
import os
import sys

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
checks, na = [], []
NOT = {}
for line in open(os.path.join(root, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if not os.path.exists(os.path.join(root, "pbt", "checks", pid + ".py")):
        na.append({"property": pid, "reason": NOT.get(pid, "no check has been built for it yet")})
        continue
    m = importlib.import_module("pbt.checks." + pid)
    checks.append({
        "property": pid, "quick_cmd": "./check %s --tier quick" % pid,
        "thorough_cmd": "./check %s --tier thorough" % pid, "evidence_file": "evidence/%s.json" % pid,
        "technique": m.TECHNIQUE, "level": "exploration", "level_note": m.LEVEL_NOTE})
man = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na,
       "notes": "All checks are property-based tests. No hooks in /repo are used."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", len(na), "not claimed")
