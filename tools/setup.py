#!/usr/bin/env python3
"""Checks that the tools are there and that every specification parses."""
import glob, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
for t in ("g++", "java", "python3"):
    subprocess.run([t, "--version"], check=True, stdout=subprocess.DEVNULL)
fs = sorted(glob.glob(os.path.join(V, "spec", "*.tla")))
p = subprocess.run(["java", "-cp", CP, "tla2sany.SANY"] + fs, cwd=os.path.join(V, "spec"), capture_output=True, text=True)
if p.returncode:
    print(p.stdout[-3000:])
    sys.exit(1)
print("%d specifications parse" % len(fs))
