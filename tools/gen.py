#!/usr/bin/env python3
"""Generates properties.jsonl, MANIFEST.json and checks.json from props.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from props import PROPS, NOT_APPLICABLE
# seconds of the quick run, where it is not 20: slow cases
QUICK = {"C09": 25, "C10": 30, "C11": 30, "C12": 30, "C15": 30, "C16": 40, "C24": 25, "C26": 40}
ids = [p["id"] for p in PROPS]
assert len(set(ids)) == len(ids)
with open(H + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        mech = [dict(name=a, where=b) for a, b in p["mech"]]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=mech, observe_at=p.get("observe", []), hook_needed=None))) + "\n")
checks, conf = [], {}
for p in PROPS:
    if "src" not in p:
        continue
    checks.append(dict(property=p["id"], quick_cmd="./check %s --tier quick" % p["id"],
        thorough_cmd="./check %s --tier thorough" % p["id"], technique=p.get("technique",
        "model-based property testing: generated operation histories against a reference model, coverage-guided, with shrinking"),
        level=p.get("level", "exploration"), level_note=p["note"]))
    conf[p["id"]] = dict(src=p["src"], level=p.get("level", "exploration"), assume=p.get("assume", []),
                         quick=QUICK.get(p["id"], 20), thorough=p.get("thorough", 420), flags=p.get("flags", []), parts=p.get("parts", 1))
json.dump(dict(version=1, setup_cmd="./setup.sh", hooks=dict(guard="MDDS_VERIF_HOOKS",
    enable="no hook is needed: the checks compile the headers of /repo/include as they are; the guard name is reserved and unused",
    source_commits=[]), checks=checks, not_applicable=NOT_APPLICABLE,
    notes="Every check compiles a harness in src/ against /repo/include and searches with the engine in src/vf.hpp."),
    open(H + "/MANIFEST.json", "w"), indent=1)
json.dump(conf, open(H + "/checks.json", "w"), indent=1)
