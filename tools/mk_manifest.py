#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "contract-based deductive verification of the real source (symbolic execution of /repo's functions against contracts, every obligation discharged by z3), runtime contracts for replay"
COMMON = (" Floats are treated as reals; the numpy/pandas/scipy operations used are trusted by the contracts in dv/. "
          "Runtime contracts on the real code replay failures and stand in, bounded, for any unit the verifier cannot reach; they are never counted as discharged.")
CLAIMED = json.load(open(os.path.join(HERE, "tools", "claims.json")))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED["claimed"]:
        checks.append(dict(property=i, quick_cmd="python3 check.py {} --tier quick".format(i), thorough_cmd="python3 check.py {} --tier thorough".format(i),
                           evidence_file="evidence/{}.json".format(i), technique=T, level="proof", level_note=CLAIMED["claimed"][i] + COMMON))
    else:
        na.append(dict(property=i, reason=CLAIMED["not_applicable"].get(i, "no contract within reach has been built for it yet")))
m = dict(version=1, setup_cmd="python3 tools/selftest.py", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
