#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import P
from configs import CONFIGS
NA = {}   # property -> reason
props = [json.loads(l) for l in open(VERIF + "/properties.jsonl")]
checks = []
for p in props:
    i = p["id"]
    if i not in P: continue
    x = P[i]
    mcs = sorted({s["cfg"] for s in x["slices"] if s["mode"] == "mc"}); sims = sorted({s["cfg"] for s in x["slices"] if s["mode"] == "sim"})
    note = x.get("note") or ("Model checking of the TLA+ specification on the bounded instances %s, and random behaviours of %s; every explored state and step is executed on the real "
            "application and compared with the specification%s. Assumes the bounds of these instances (tools/configs.py) and the projection of the real state in harness/proj.go."
            % (", ".join(mcs) or "-", ", ".join(sims) or "-", ("; additional checks on the real states: " + ", ".join(x["checks"])) if x["checks"] else ""))
    checks.append(dict(property=i, quick_cmd="python3 tools/check.py %s quick" % i, thorough_cmd="python3 tools/check.py %s thorough" % i, evidence_file="evidence/%s.json" % i,
                       technique="TLA+ specification checked with TLC, its behaviours replayed into the real application", level="model_checking", level_note=note))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=[dict(property=p["id"], reason=NA.get(p["id"], "the check is being built")) for p in props if p["id"] not in P]),
          open(VERIF + "/MANIFEST.json", "w"), indent=1)
