#!/usr/bin/env python3
"""DESIGN.md = tools/design.head.md + tables from the seeded bugs' meta.json and tools/caught.json"""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = open(V + "/tools/design.head.md").read()
try:
    caught = json.load(open(V + "/tools/caught.json"))
except OSError:
    caught = {}
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*")):
    sid = os.path.basename(d)
    m = json.load(open(d + "/meta.json"))
    rows.append("| %s | %s | %s: %s | %s |" % (sid, m["property"], m["needs"], m["what_it_breaks"], caught.get(sid, "not run")))
open(V + "/DESIGN.md", "w").write(head.replace("@@SEEDED@@", "\n".join(rows)))
