#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
checks, na = [], []
for ln in open(os.path.join(V, "properties.jsonl")):
    id = json.loads(ln)["id"]
    if os.path.exists(os.path.join(V, "checks", id.lower() + ".py")):
        m = importlib.import_module("checks." + id.lower())
        checks.append({"property": id, "quick_cmd": "python3 run.py " + id,
                       "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + id,
                       "technique": getattr(m, "TECHNIQUE", "TLA+ specification model-checked with TLC; recorded runs of the real code validated against it by TLC"),
                       "level": getattr(m, "LEVEL", "model_checking"),
                       "level_note": " ".join(getattr(m, "NOTE", m.__doc__ or "").split()) or "TLA+ spec, TLC trace validation",
                       "evidence_file": "evidence/%s.json" % id})
    else:
        na.append({"property": id, "reason": "the check for this property is not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "Specifications in spec/, drivers in harness/, generators in checks/, runner in vf/core.py. See DESIGN.md."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
