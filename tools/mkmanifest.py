#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = dict(props.NOT_APPLICABLE, **{i: "check under construction" for i in ids if i not in props.P})
checks = []
for i in ids:
    if i in NA:
        continue
    p = props.P[i]
    checks.append(dict(
        property=i, quick_cmd="python3 tools/vt.py check " + i, thorough_cmd="python3 tools/vt.py check " + i,
        technique=p.get("technique", props.TECH), level="model_checking", level_note=p.get("note", props.NOTE)))
m = dict(version=1, setup_cmd="python3 tools/vt.py setup", checks=checks,
         not_applicable=[dict(property=i, reason=NA[i]) for i in ids if i in NA],
         notes="DESIGN.md describes the specification and how it is bound to the code; KNOWN_FINDINGS.txt lists genuine defects.")
if props.HOOKS:
    m["hooks"] = props.HOOKS
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
