"""writes MANIFEST.json from the property list and the checks present"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = json.load(open(os.path.join(V, "tools", "techniques.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    t = TECH.get(i)
    if os.path.exists(os.path.join(V, "wxcheck", "props", i.lower() + ".py")) and t and "na" not in t:
        checks.append({"property": i, "quick_cmd": f"python3-vt check.py {i}", "thorough_cmd": f"python3-vt check.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": t["technique"], "level": "other", "level_note": t["note"]})
    else:
        na.append({"property": i, "reason": (t or {}).get("na", "no static check has been built for it (yet)")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only: every check parses /repo's working tree and reports constructs; nothing of the code under analysis is executed. 'other' is the level because none of the enumerated dynamic levels describes a static argument; the level notes say what each verdict rests on."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
