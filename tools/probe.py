#!/usr/bin/env python3-vt
"""Self-test of the environment model: runs tools/probe.cpp (one job per library feature) and lists what is not modelled."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import specs, check
names = re.findall(r'^\{"([^"]+)"', open(ROOT + "/tools/probe.cpp").read(), re.M)
specs.SPECS["P00"] = dict(harness=["../tools/probe.cpp"], tool=False, bounds="", outside="",
                          jobs=[{"entry": "zz_probe", "params": {"k": i}, "covers": ["done"]} for i in range(len(names))])
sys.argv = ["check.py", "P00"]
try:
    check.main()
except SystemExit:
    pass
p = ROOT + "/evidence/P00.json"
for i in json.load(open(p))["coverage"]["inconclusive"]:
    k = re.search(r"k=(\d+)", i["job"])
    if "witness" not in i["why"]:
        print(names[int(k.group(1))] if k else i["job"], "|", i["why"][:200])
os.remove(p)
