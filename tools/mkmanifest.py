#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        s = CHECKS[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py %s --tier quick" % i, thorough_cmd="python3 run.py %s --tier thorough" % i,
            technique=s.get("technique", "runtime monitoring"), level=s.get("level", "exploration"), level_note=s["note"]))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check registered yet (work in progress)")))
m = dict(version=1, setup_cmd="python3 tools/setup.py",
    hooks=dict(guard="verif", enable="no hooks were needed in /repo: harnesses are laid over the working tree with go build -overlay", source_commits=[]),
    checks=checks, not_applicable=na,
    notes="Every check is run.py <id>: it builds the program in harness/<id> over /repo's current tree and runs it under watch.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "unclaimed")
