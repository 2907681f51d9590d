#!/usr/bin/env python3
"""fixed.py PROPERTY COMMIT WHAT...: records a repaired defect in known_findings.json"""
import json, sys
import os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
k = json.load(open(p))
s = "fixed: property=%s %s %s" % (sys.argv[1], sys.argv[2], " ".join(sys.argv[3:]))
if s not in k["fixed"]:
    k["fixed"].append(s)
json.dump(k, open(p, "w"), indent=1)
