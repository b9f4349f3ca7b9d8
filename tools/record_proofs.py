#!/usr/bin/env python3
"""Writes /verif/proofs.json: for every contract that is fully discharged on the present tree, the hash of the functions
its proof goes through. check.py only reads it: an obligation that is open although its functions are as recorded is a
solver that ran out of time, not a change of the code."""
import json
import os
import subprocess
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import registry  # noqa: E402
path = os.path.join(H, "proofs.json")
rec = json.load(open(path)) if os.path.exists(path) else {}
for p in sys.argv[1:] or [p for p, d in registry.PROPS.items() if d["contracts"]]:
    out = json.loads(subprocess.run(["python3-vt", "pv/run.py", p], cwd=H, capture_output=True, text=True,
                                    env=dict(os.environ, PYTHONHASHSEED="0")).stdout)
    by = {}
    for o in out["obligations"]:
        by.setdefault(o["contract"], []).append(o)
    rec[p] = {c: dict(hash=l[0]["hash"], obligations=len(l)) for c, l in sorted(by.items())
              if all(o["status"] == "proved" for o in l)}
    bad = [o["name"] for o in out["obligations"] if o["status"] != "proved"]
    print(p, len(rec[p]), "contracts", "OPEN: %s" % bad if bad else "", "%.0f s" % out["wall_s"])
json.dump(rec, open(path, "w"), indent=1, sort_keys=True)
