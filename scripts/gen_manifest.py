#!/usr/bin/env python3
"""properties.jsonl and MANIFEST.json from props.py (the one place where properties are written down)"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/scripts")
from props import PROPS, NOT_APPLICABLE
import re
have = {int(x) for x in re.findall(r'\((\d+), c\d+::JOBS\)', open(V + '/harness/src/main.rs').read())}
PROPS = [p for p in PROPS if int(p['id'][1:]) in have]
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS + [n["p"] for n in NOT_APPLICABLE]:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}, ensure_ascii=False) + "\n")
m = {
    "version": 1,
    "setup_cmd": "python3 scripts/setup.py",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"python3 check.py {p['id']} quick",
            "thorough_cmd": f"python3 check.py {p['id']} thorough",
            "technique": "symbolic execution of the crate's LLVM IR, path conditions and assertions decided by Z3, native replay",
            "level": "model_checking",
            "level_note": p["note"],
        }
        for p in PROPS
    ],
    "not_applicable": [{"property": n["p"]["id"], "reason": n["reason"]} for n in NOT_APPLICABLE],
}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
