#!/usr/bin/env python3
"""DESIGN.md = doc/DESIGN.in with the table of planted bugs and the mutation campaigns filled in."""
import importlib.util, glob, os
here = os.path.dirname(os.path.abspath(__file__))
rows = []
for f in sorted(glob.glob(here + "/seedkit/seeds*.py")):
    sp = importlib.util.spec_from_file_location("s", f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    for s in m.SEEDS: rows.append("| %s | %s | %s |" % (s["id"], s["property"], s["needs"]))
t = open(here + "/DESIGN.in").read().replace("@@TABLE@@", "\n".join(rows)).replace("@@CAMPAIGN@@", open(here + "/campaigns.txt").read().strip())
open(os.path.dirname(here) + "/DESIGN.md", "w").write(t)
