"""Take the cost of the last run of each check from evidence/ into costs.json (run by hand)."""

import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(HERE, "tools", "costs.json")
costs = json.load(open(path))
for f in glob.glob(os.path.join(HERE, "evidence", "C??.json")):
    e = json.load(open(f))
    pid = e.get("property_id") or os.path.basename(f)[:3]
    tier = e.get("tier")
    wall = e.get("wall_s") or e.get("coverage", {}).get("wall_s")
    paths = e.get("coverage", {}).get("states")
    if tier and wall and paths:
        costs.setdefault(pid, {})[tier] = f"{round(wall)} s, {paths} paths"
json.dump(costs, open(path, "w"), indent=1, sort_keys=True)
