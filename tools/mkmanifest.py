#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: the claimed checks, and the rest under not_applicable."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
exec(open(f"{V}/tools/claims.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        tech, note = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
                           evidence_file=f"evidence/{i}.json", technique=tech, level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check has been built yet")))
json.dump(dict(version=1, setup_cmd="./check.sh build", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the checks build verbatim copies of its crates against controlled dependencies (mc/gen.py)."),
          open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
