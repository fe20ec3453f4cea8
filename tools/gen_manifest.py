#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
m = dict(version=1, setup_cmd="python3 tools/setup.py",
    hooks=dict(guard="cfg(any(kani, demixer_verif))",
        enable="Kani sets cfg(kani) itself; native builds of /verif/replay use "
               "RUSTFLAGS='--cfg demixer_verif'",
        source_commits=["943d2c9", "778396c"]),
    checks=[], not_applicable=[])
for i in ids:
    c = checks.CHECKS.get(i)
    if c is None:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i,
            "check not built yet")))
        continue
    m["checks"].append(dict(property=i, quick_cmd="python3 run.py %s" % i,
        thorough_cmd="VERIF_TIER=thorough python3 run.py %s" % i,
        technique=c.technique, level=c.level, level_note=c.note))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
