#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NA
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        d = {k: p[k] for k in ("id", "title", "statement")}
        d["quantifier"] = {"over": p.get("over", ["inputs"]), "text": p["quant"]}
        d["why_tests_cant"] = p["why"]
        d["anchors"] = {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}
        if "observe" in p:
            d["anchors"]["observe_at"] = p["observe"]
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "python3 /verif/tools/setup.py",
     "checks": [{"property": p["id"], "quick_cmd": "python3 /verif/check.py %s --tier quick" % p["id"],
                 "thorough_cmd": "python3 /verif/check.py %s --tier thorough" % p["id"],
                 "technique": p["technique"], "level": p.get("level", "other"), "level_note": p["note"],
                 "evidence_file": "/verif/evidence/%s.json" % p["id"]} for p in PROPS],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
     "notes": "All checks are static: they compile /repo's current sources to LLVM bitcode with clang (never run it), dump it with tools/irdump "
              "(built by setup_cmd or on first use) and analyse it in Python; see DESIGN.md."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
