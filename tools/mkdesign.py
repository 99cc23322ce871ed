#!/usr/bin/env python3
"""Regenerates the table of seeded bugs at the end of DESIGN.md."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- seeded table: tools/mkdesign.py -->\n"
path = os.path.join(ROOT, "DESIGN.md")
with open(path) as f:
    text = f.read()
missed = set()
if os.path.exists(os.path.join(ROOT, "tools", "missed.txt")):
    missed = set(open(os.path.join(ROOT, "tools", "missed.txt")).read().split())
rows = ["", "| bug | caught by | needs | breaks |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    with open(os.path.join(ROOT, "seeded", d, "meta.json")) as f:
        m = json.load(f)
    cell = lambda s: s.replace("|", "/").replace("\n", " ")
    rows.append("| %s | %s | %s | %s |" % (d, "not caught" if d in missed else m["property"], cell(m["needs"]), cell(m["what_it_breaks"])))
with open(path, "w") as f:
    f.write(text[:text.index(MARK) + len(MARK)] + "\n".join(rows) + "\n")
