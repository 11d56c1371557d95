#!/usr/bin/env python3
"""Writes properties.jsonl, contracts/registry.json and MANIFEST.json from the
one description in props.py."""
import json
import os
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.abspath(__file__))
TECH = ("contract-based deductive verification: contracts over the compiled library source, verification conditions "
        "from symbolic execution of its LLVM IR discharged by z3")
with open(f"{V}/properties.jsonl", "w") as f:
    for p in PROPS + NOT_APPLICABLE:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["forall"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": p["mechanism"]},
        }) + "\n")
reg = {"engine_budget_s": 430, "properties": {
    p["id"]: {"contracts": p["contracts"], **{k: p[k] for k in ("bounded", "bounds", "assumptions") if k in p}} for p in PROPS}}
json.dump(reg, open(f"{V}/contracts/registry.json", "w"), indent=1)
man = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']} --tier quick",
        "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
        "technique": p.get("technique", TECH),
        "level": "other" if p.get("bounded") else "proof",
        "level_note": p["note"],
    } for p in PROPS],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
}
json.dump(man, open(f"{V}/MANIFEST.json", "w"), indent=1)
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
