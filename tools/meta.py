#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS, NOT_APPLICABLE
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(f"{root}/properties.jsonl", "w") as f:
    for p in PROPS + [n["prop"] for n in NOT_APPLICABLE]:
        assert len(p["title"]) <= 80, p["id"]
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                 anchors=dict(files=sorted({w.split(":")[0] for _, w in p["mech"]}),
                              mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                              observe_at=p.get("observe", []), hook_needed=None))
        f.write(json.dumps(d) + "\n")
m = dict(version=1, setup_cmd="./run.sh build",
         checks=[dict(property=p["id"], quick_cmd=f"./run.sh {p['id']} quick", thorough_cmd=f"./run.sh {p['id']} thorough",
                      technique="symbolic execution of the real contract code, SMT-decided assertions (z3/cvc5)",
                      level="model_checking", level_note=p["note"]) for p in PROPS],
         not_applicable=[dict(property=n["prop"]["id"], reason=n["reason"]) for n in NOT_APPLICABLE],
         notes="No hooks in /repo: the contracts are compiled unchanged against a symbolic implementation of the VM API (VMApi). See DESIGN.md.")
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
