"""Update meta/costs.json with the walls of the evidence files and of outputs given as arguments."""
import glob
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(HERE, "meta", "costs.json")
costs = json.load(open(path))
for f in sorted(glob.glob(os.path.join(HERE, "evidence", "C*.json"))):
    e = json.load(open(f))
    costs.setdefault(os.path.basename(f)[:3], {})[e["tier"]] = "%.0f s" % e["wall_s"]
for f in sys.argv[1:]:
    for m in re.finditer(r"(C\d\d) (quick|thorough): .*violations=0 .*wall=([\d.]+)s", open(f).read()):
        costs.setdefault(m.group(1), {})[m.group(2)] = "%.0f s" % float(m.group(3))
json.dump(costs, open(path, "w"), indent=1, sort_keys=True)
