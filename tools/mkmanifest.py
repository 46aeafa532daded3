#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from the checks that exist (checks/Cxx.py)"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEFAULT_NA = "no check built yet"
NA = {}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    f = os.path.join(V, "checks", p["id"] + ".py")
    if not os.path.exists(f):
        na.append(dict(property=p["id"], reason=NA.get(p["id"], DEFAULT_NA)))
        continue
    s = open(f).read()
    level = re.search(r'Check\("C\d\d", "(\w+)"', s).group(1)
    tech = re.search(r'^# technique: (.*)$', s, re.M).group(1)
    note = re.search(r'^# note: (.*)$', s, re.M).group(1)
    checks.append(dict(property=p["id"], quick_cmd="python3 checks/%s.py" % p["id"],
                       thorough_cmd="python3 checks/%s.py --tier thorough" % p["id"],
                       technique=tech, level=level, level_note=note))
json.dump(dict(version=1, setup_cmd="python3 lib/sgbuild.py plain", checks=checks, not_applicable=na),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
