#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in properties.py,
for the properties which mc/plan runs."""
import json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from properties import PROPS
plan = open(os.path.join(root, "mc/plan/plan.go")).read()
impl = dict(re.findall(r'\{"([A-Z]\d\d)", (\w+), ', plan))
levels = {"exploration": "exploration", "modelCheck": "model_checking", "faults": "fault_enumeration"}
ids = set()
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert p["id"] not in ids
        ids.add(p["id"])
        if p["id"] not in impl:
            continue
        assert len(p["title"]) <= 80, p["title"]
        q = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]},
             "why_tests_cant": p["tests"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        for fn in p["files"]:
            assert os.path.exists(os.path.join("/repo", fn)), fn
        f.write(json.dumps(q) + "\n")
checks = []
for p in PROPS:
    if p["id"] not in impl:
        print("not implemented:", p["id"])
        continue
    checks.append({"property": p["id"], "quick_cmd": "./run.sh %s quick" % p["id"],
                   "thorough_cmd": "./run.sh %s thorough" % p["id"],
                   "technique": p["technique"], "level": levels[impl[p["id"]]], "level_note": p["note"]})
for i in impl:
    assert i in ids, i
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none", "enable": "the checks of schedules rewrite the packages of /repo into an overlay at build time (mc/cmd/instr); /repo itself contains no hooks", "source_commits": []},
     "checks": checks, "not_applicable": [],
     "notes": "Every check rebuilds its explorer from /repo's working tree. See DESIGN.md."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
