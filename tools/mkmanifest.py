import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
notes = json.load(open(V + "/tools/levels.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/harness/{i.lower()}.py") and i in notes:
        checks.append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough",
                           technique=notes[i]["technique"], level="model_checking", level_note=notes[i]["note"]))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="TLA+ specifications in spec/, checked with TLC; see DESIGN.md"), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), len(na))
