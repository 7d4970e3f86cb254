#!/usr/bin/env python3
"""DESIGN.md = design_text.md + tables generated from checks.py, seeds_src.py and known_findings.txt"""
import os, sys, json
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H); sys.path[:0] = [V, H]
from checks import CHECKS
from seeds_src import SEEDS
o = open(H + "/design_text.md").read()
o += "\n## Bounds\n\n"
for c in sorted(CHECKS):
    k = CHECKS[c]; o += "* **%s** (%s). Quick: %s.\n  Thorough: %s.\n" % (c, ", ".join(k.get("variants", ["asan"])), k["bounds"][0], k["bounds"][-1])
o += "\nQuick runs take 10 to 120 s each on 8 cores, including the build (about 15 s per variant).\n\n## Planted bugs and the checks that catch them\n\nEach was verified (stable tests pass, demonstration fails) and is caught by the check of its property.\n\n| bug | property | needs | breaks |\n|---|---|---|---|\n"
for s in SEEDS: o += "| %s | %s | %s | %s |\n" % (s["id"], s["property"], s["needs"].replace("|", "/"), s["breaks"].replace("|", "/"))
o += "\n## Defects found and repaired\n\n"
for l in open(V + "/known_findings.txt"):
    if l.startswith("fixed:"): _, p, h, t = l.strip().split(" ", 3); o += "* %s %s %s\n" % (p.split("=")[1], h, t)
open(V + "/DESIGN.md", "w").write(o)
