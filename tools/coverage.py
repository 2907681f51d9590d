#!/usr/bin/env python3
"""coverage.py DIR [ID...]: runs the checks (quick tier) built for line coverage, and lists the lines of the files of each
property that no record of its check reached."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("VF_REPO", "/repo")
d = os.path.abspath(sys.argv[1])
os.makedirs(d, exist_ok=True)
props = [json.loads(x) for x in open(V + "/properties.jsonl")]
for p in props:
    i = p["id"]
    if sys.argv[2:] and i not in sys.argv[2:]:
        continue
    subprocess.run([sys.executable, "run.py", i], cwd=V, env=dict(os.environ, VF_COV=d), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if not os.path.exists("%s/%s.json" % (d, i)):
        print("no coverage of", i)
        continue
    c = json.load(open("%s/%s.json" % (d, i)))
    with open("%s/%s.txt" % (d, i), "w") as o:
        for f in p["anchors"]["files"]:
            h = {int(k): v for k, v in c.get(f, {}).items()}
            t = sum(1 for v in h.values() if v)
            o.write("## %s: %d of %d lines\n" % (f, t, len(h)))
            if f.endswith((".h", ".cpp")):
                ls = open(os.path.join(R, f)).read().split("\n")
                for k in sorted(h):
                    if not h[k]:
                        o.write("%5d %s\n" % (k, ls[k - 1]))
