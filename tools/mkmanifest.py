#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and plan.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from plan import PLAN
NAMES = {"v2": "V2 order-book marketplace", "v1": "V1 marketplace", "ra": "reserve auction", "co": "shared library"}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    if p["id"] in PLAN:
        checks.append(dict(
            property=p["id"], quick_cmd="python3 check.py %s" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
            technique="TLA+ specification of the %s model-checked with TLC, bound to the real contract by replaying the model's states and by trace validation of recorded histories" % NAMES[PLAN[p["id"]]["sys"]],
            level="model_checking",
            level_note="The specification's invariants hold in every state of a bounded universe (TLC, exhaustive); the real contract, compiled from /repo, agreed with the specification on every operation tried in replayed model states and in seeded random histories. Trusts cw-multi-test as the chain and the harness's projection; histories beyond those explored are not covered."))
    else:
        na.append(dict(property=p["id"], reason="machinery for this property is not built yet"))
json.dump(dict(version=1, setup_cmd="bash setup.sh", hooks=dict(guard="none", enable="no hooks: the checks use the contracts' public entry points only", source_commits=[]), checks=checks, not_applicable=na),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
