#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(here))
sys.dont_write_bytecode = True
from vf import checks
from tools.levels import LEVELS
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
out = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=[],
    notes="Each check is ./check <id>; it builds what it needs from /repo's working tree in a scratch directory under /tmp and removes it. Tier and seed come from VERIF_TIER and VERIF_SEED. No hooks in /repo are needed.")
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        t, note = LEVELS[i]
        out["checks"].append(dict(property=i, quick_cmd="VERIF_TIER=quick ./check " + i, thorough_cmd="VERIF_TIER=thorough ./check " + i,
            technique=t, level=checks.CHECKS[i][1], level_note=note))
    else:
        out["not_applicable"].append(dict(property=i, reason="the check is not built yet"))
json.dump(out, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
print(len(out["checks"]), "claimed", len(out["not_applicable"]), "not")
