#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the list of built checks."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
built = sys.argv[1:] or sorted({w[3:6] for w in os.listdir(here + "/mc") if False})
common = ("Exhaustive within the bounds reported in the evidence file; every explored trace runs on the real package built from "
          "/repo's working tree and is compared step by step with an independent reference written in the harness. Trusted: the "
          "reference, the Go toolchain, and that merging isomorphic states by a structural fingerprint loses no behaviour.")
tech = {}
exec(open(here + "/tools/techniques.py").read())
checks, na = [], []
for i in ids:
    if i in tech:
        t, note = tech[i]
        checks.append({"property": i, "quick_cmd": "./run.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + i,
                       "technique": t, "level": "model_checking", "level_note": (note + " " + common).strip()})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "One explicit-state explorer (mc/) that drives the real library through its public API; see DESIGN.md."},
          open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
