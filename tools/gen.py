#!/usr/bin/env python3
"""Writes properties.jsonl, checks.json and MANIFEST.json from the table in tools/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/tools")
from props import PROPS, NOT_APPLICABLE, NOTES
open(V + "/properties.jsonl", "w").write("".join(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
    anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))) + "\n" for p in PROPS + NOT_APPLICABLE))
claimed = [p for p in PROPS]
json.dump({p["id"]: dict(bounds=p["bounds"], assumptions=p.get("assumptions", []), **{k: p[k] for k in ("features", "budget", "thorough_budget") if k in p}) for p in claimed}, open(V + "/checks.json", "w"), indent=1)
TECH = "Symbolic execution of rustc's LLVM IR of the real functions (own executor, forking, z3 decides every branch and assertion), counterexamples replayed natively"
json.dump(dict(version=1, setup_cmd="python3 check.py --build",
    checks=[dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} --tier quick", thorough_cmd=f"python3 check.py {p['id']} --tier thorough", evidence_file=f"evidence/{p['id']}.json", technique=TECH, level="model_checking",
        level_note="bounded: " + p["bounds"]) for p in claimed],
    not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in NOT_APPLICABLE], notes=NOTES), open(V + "/MANIFEST.json", "w"), indent=1)
for p in PROPS + NOT_APPLICABLE: assert len(p["title"]) <= 80, p["title"]
