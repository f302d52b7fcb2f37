#!/usr/bin/env python3
"""Writes MANIFEST.json from spec.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here); sys.dont_write_bytecode = True
from spec import CHECKS, NOT_CLAIMED
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[], not_applicable=[],
         notes="Header-only library: no hooks are needed in /repo; every check compiles its explorers against /repo/include and /repo/examples.")
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                                evidence_file="evidence/%s.json" % i, technique=c["technique"], level="model_checking", level_note=c["note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason=NOT_CLAIMED.get(i, "no check built yet")))
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
