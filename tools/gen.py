#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below (and groups.CHECKS)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from groups import CHECKS  # noqa: E402
sys.path.insert(0, V + "/tools")
from props import PROPS, NOT_APPLICABLE, NOTES  # noqa: E402

with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["forall"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
        if p.get("observe"):
            d["anchors"]["observe_at"] = p["observe"]
        d["anchors"]["hook_needed"] = p.get("hook")
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
na = dict(NOT_APPLICABLE)
checks = []
for p in PROPS:
    if p["id"] in CHECKS:
        assert p["id"] not in na
        checks.append(dict(property=p["id"], quick_cmd=f"./check {p['id']}", thorough_cmd=f"./check {p['id']} --thorough",
                           evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level="exploration",
                           level_note=p["note"]))
    else:
        assert p["id"] in na, p["id"]
m = dict(version=1, setup_cmd="./check --build", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in na.items()], notes=NOTES)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks", len(na), "not applicable")
