"""Collect what the last quick runs cost (evidence/*.json) into tools/costs.json."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = ROOT + "/tools/costs.json"
costs = json.load(open(path)) if os.path.exists(path) else {}
for f in sorted(glob.glob(ROOT + "/evidence/*.json")):
    d = json.load(open(f))
    if d.get("tier") == "quick":
        c = d["coverage"]
        costs[d["property"]] = f"{d['wall_s']:.0f} s, {c['states']} paths, {c['solver_queries']} queries"
json.dump(costs, open(path, "w"), indent=1, sort_keys=True)
