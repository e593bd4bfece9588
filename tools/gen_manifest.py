#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of claimed checks."""
import json, os, re
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.join(HERE, "..")
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
exec(open(os.path.join(HERE, "claims.py")).read())   # CLAIMS, NOT_APPLICABLE
cm = open(os.path.join(ROOT, "checks.cmake")).read()
built = set(re.findall(r"add_(?:sched_)?check\((P\d\d)", cm))
checks = []
for i in props:
    if i in CLAIMS and i in built:
        t, lvl, note = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": lvl, "level_note": note})
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")} for i in props
      if i not in {c["property"] for c in checks}]
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "EDIE_MC_HOOKS", "enable": "no hooks are needed: the checks drive public interfaces only", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Every check rebuilds what it needs from /repo's working tree (cmake in /verif/build)."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na], "not claimed")
