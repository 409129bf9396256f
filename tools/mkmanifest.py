import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = json.load(open(V + "/tools/technique.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/harness/checks/{i.lower()}.py"):
        t = TECH.get(i, {})
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
                           technique=t.get("technique", "TLA+ model checked with TLC; behaviours generated from the model replayed into the real code; recorded observations judged by a TLA+ trace specification"),
                           level=t.get("level", "model_checking"), level_note=t.get("note", "bounded: exhaustive in the model's constants; conformance on the replayed behaviours")))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="TLA+ specifications in spec/, conformance harness in harness/. check.py rebuilds compiled kernels from /repo when their sources changed.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
