#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[], not_applicable=[],
         notes="Technique family: model checking. Harnesses compile /repo's sources unmodified; no hooks in /repo are needed, the guard below exists for form only.")
m["hooks"] = dict(guard="FASTGLTF_VERIF_HOOKS", enable="no hooks are used: the checks compile /repo's working tree as it is", source_commits=[])
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        m["not_applicable"].append(dict(property=p["id"], reason="planned, check not built yet"))
        continue
    m["checks"].append(dict(property=p["id"], quick_cmd="python3 run.py %s --tier quick" % p["id"], thorough_cmd="python3 run.py %s --tier thorough" % p["id"],
                            technique=c["technique"], level=c["level"], level_note=c["note"]))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks;", len(m["not_applicable"]), "not claimed")
