#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from bin/plan.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from plan import PLAN, MODELS
checks = []
for p, d in sorted(PLAN.items()):
    sim = [m for m in d["models"] if "simulate" in MODELS[m]]
    mc = [m for m in d["models"] if m not in sim]
    vecs = any("model" in j for j in d["jobs"])
    t = "TLA+ specification checked with TLC (%s)" % ", ".join(mc)
    if vecs:
        t += "; vectors TLC generates from it replayed on the library"
    t += "; recorded library calls judged against the specification by TLC (trace validation)"
    checks.append({
        "property": p,
        "quick_cmd": "bin/check %s" % p,
        "thorough_cmd": "bin/check %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": t,
        "level": "model_checking",
        "level_note": "The specification is explored exhaustively within small constants; the library is bound to it "
                      "by every recorded call of this run being a behaviour of it. Inputs: " + d["rule"] + ".",
    })
m = {"version": 1,
     "setup_cmd": "cd harness && CARGO_NET_OFFLINE=true cargo build --offline --release --locked",
     "checks": checks, "not_applicable": []}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
