#!/usr/bin/env python3
"""Writes MANIFEST.json from config.py and properties.jsonl."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
from config import PROPERTIES
na = json.load(open(os.path.join(H, "tools", "not_applicable.json")))
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": []}
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
for i in ids:
    if i in PROPERTIES:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
            "technique": PROPERTIES[i].get("technique", "symbolic execution of the LLVM IR rustc emits for /repo, z3 decides every branch and assertion"),
            "level": "model_checking", "level_note": "bounded: every input within the bounds is covered by a solver verdict. Quick: " + PROPERTIES[i]["bounds"]["quick"]})
    else:
        assert any(x["property"] == i for x in na), i
m["not_applicable"] = na
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
