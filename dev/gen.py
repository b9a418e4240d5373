#!/usr/bin/env python3
"""dev/gen.py: write properties.jsonl and MANIFEST.json from dev/props.py"""
import json, os, runpy
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = runpy.run_path(os.path.join(R, "dev", "props.py"))["PROPS"]
chk = {f.split("_")[0].upper() for f in os.listdir(R + "/sa/checks") if f[0] == "c"}
with open(R + "/properties.jsonl", "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        o = {k: q[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        f.write(json.dumps(o) + "\n")
M = {"version": 1, "setup_cmd": "python3 -c \"import ast, sys; assert sys.version_info >= (3, 9)\"", "checks": [], "not_applicable": []}
for q in P:
    if q["id"] in chk:
        M["checks"].append({"property": q["id"], "quick_cmd": f"python3 check.py {q['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {q['id']}",
            "technique": q["technique"], "level": "other", "level_note": q["level_note"]})
    else:
        M["not_applicable"].append({"property": q["id"], "reason": q["na"]})
json.dump(M, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(M["checks"]), "checks", len(M["not_applicable"]), "n/a")
