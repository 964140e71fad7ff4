#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, "tools"))
from props import P, NA
from checks import CHECKS
REPO = "/repo"
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        for x in p["files"]:
            assert os.path.exists(os.path.join(REPO, x)), (p["id"], x)
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=p["mechanism"], observe_at=p["observe"], hook_needed=None))) + "\n")
ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
na = {n["property"] for n in NA}
checks = [dict(property=p["id"], quick_cmd="python3 run.py %s quick" % p["id"], thorough_cmd="python3 run.py %s thorough" % p["id"],
               evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level="exploration", level_note=p["note"])
          for p in P if p["id"] not in na]
for c in checks:
    assert c["property"] in CHECKS, c
json.dump(dict(version=1, setup_cmd="python3 tools/selftest.py", checks=checks, not_applicable=NA,
               notes="Each check builds its harness and the library sources from /repo's working tree in /verif/.build (removed afterwards). No hooks were added to /repo."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(P), "properties", len(checks), "checks")
