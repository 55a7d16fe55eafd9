#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NOTES
TECH = "static analysis: "
out, checks, na = [], [], []
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
    a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
    if p.get("state"): a["state"] = p["state"]
    if p.get("observe"): a["observe_at"] = p["observe"]
    out.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"], "anchors": a})
    if "na" in p:
        na.append({"property": p["id"], "reason": p["na"]})
    else:
        checks.append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"],
                       "thorough_cmd": "./check.sh %s thorough" % p["id"],
                       "technique": TECH + p["tech"], "level": "other", "level_note": p["note"]})
open(os.path.join(root, "properties.jsonl"), "w").write("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in out))
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na, "notes": NOTES},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(out), "properties,", len(checks), "checks,", len(na), "not applicable")
import subprocess
