#!/usr/bin/env python3
"""Writes DESIGN.md."""
import ast, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "tools"))
sys.dont_write_bytecode = True
from design_notes import N
P = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
kf = json.load(open(os.path.join(V, "known_findings.json")))
seeds = {}
sd = os.path.join(V, "seeded")
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    seeds.setdefault(m["property"], []).append((d, m))
try: res = json.load(open(os.path.join(V, "tools", "caught.json")))
except OSError: res = {}
try: num = json.load(open(os.path.join(V, "tools", "numbers.json")))
except OSError: num = {}
out = open(os.path.join(V, "tools", "design_head.md")).read() + "\n## Properties\n"
for p in P:
    i = p["id"]; ev = os.path.join(V, "evidence", i + ".json")
    c = os.path.join(V, "checks", i.lower() + ".py")
    doc = " ".join((ast.get_docstring(ast.parse(open(c).read())) or "").split()) if os.path.exists(c) else "not claimed"
    if os.path.exists(ev) and "--numbers" in sys.argv:
        e = json.load(open(ev))
        if e["tier"] == "quick" and e["seed"] == 1:
            num[i] = [[m["model"], m["states"]] for m in e["coverage"]["models"]] + [e["coverage"]["records_validated"], round(e["wall_s"])]
    out += "\n### %s %s\n\n%s\n\nHow: %s\n" % (i, p["title"], p["statement"], doc)
    if i in num:
        out += "\nQuick tier: %s; %d records of the real code judged; about %d s.\n" % (
            ", ".join("%s %d states" % tuple(m) for m in num[i][:-2]) or "no separate model", num[i][-2], num[i][-1])
    if i in N: out += "\nLimits and decisions: %s\n" % N[i]
    fx = [x.split(None, 3)[3] for x in kf["fixed"] if x.split()[1] == "property=" + i]
    if fx: out += "\nDefects found and repaired: %s.\n" % "; ".join(fx)
    if i in seeds:
        out += "\nPlanted bugs: " + "; ".join("`%s` (%s%s)" % (d, m["needs"], "" if res.get(d, True) else "; NOT caught") for d, m in seeds[i]) + ".\n"
json.dump(num, open(os.path.join(V, "tools", "numbers.json"), "w"), indent=0, sort_keys=True)
out += "\n## Known findings\n\n" + ("\n".join("- " + x for x in kf["findings"]) if kf["findings"] else "None open: every defect found was small enough to repair (`fix:` commits, listed above and in known_findings.json).") + "\n"
out += "\n## Planted bugs\n\nEach was written from the statement of the property and the code, confirmed with its demonstration in a scratch copy, and run against the check of its property. Unless marked above, the check of the same property reports it (quick tier, seed 1).\n"
open(os.path.join(V, "DESIGN.md"), "w").write(out)
