"""Writes /verif/MANIFEST.json from properties.jsonl and the rule modules present."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = json.load(open(os.path.join(V, "tools", "techniques.json")))
NA = TECH.pop("_not_applicable")
checks, na = [], []
for d in props:
    i = d["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif i in TECH and os.path.exists(os.path.join(V, "sa", "rules", i.lower() + ".py")):
        t = TECH[i]
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --tier=thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": t["technique"], "level": "other", "level_note": t["note"]})
    else:
        na.append({"property": i, "reason": "not yet claimed: no check built so far"})
json.dump({"version": 1, "setup_cmd": "python3 check.py --selfcheck", "checks": checks, "not_applicable": na,
           "notes": "Static analysis only; see DESIGN.md. No hooks in /repo."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
