#!/usr/bin/env python3
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf = json.load(open(R + "/vx/conf.json"))
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
checks = []
for p in props:
    i = p["id"]
    lv = conf["level"].get(i, "proof")
    checks.append(dict(property=i, quick_cmd="./check.sh %s quick" % i, thorough_cmd="./check.sh %s thorough" % i, evidence_file="evidence/%s.json" % i,
        technique=conf["technique"].get(i, conf["technique"]["default"]), level=lv, level_note=conf["note"].get(i, conf["note"]["default"])))
m = dict(version=1, setup_cmd="python3 vx/vx.py -o /dev/null && verus --version", checks=checks, not_applicable=conf.get("not_applicable", []),
         notes="No hooks in /repo. Contracts: contracts/*.vrs, woven into the function text extracted from /repo/src on every run (vx/vx.py), decided by Verus; vx/check.py is the driver. harness/ is the bounded search for failing inputs on the real crate.")
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
