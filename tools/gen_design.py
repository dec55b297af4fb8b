#!/usr/bin/env python3
"""Composes DESIGN.md from design_head.md and the list of planted bugs."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = open(root + "/tools/design_head.md").read().rstrip() + "\n\n"
out += open(root + "/tools/design_bugs.md").read().rstrip() + "\n\n"
out += "| bug | breaks | needs | effect | caught by |\n|---|---|---|---|---|\n"
rows = []
for d in sorted(os.listdir(root + "/seeded"), key=lambda d: int("".join(c for c in d.split("-")[0] if c.isdigit()))):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    rows.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["needs"], m["what_it_breaks"], m["property"]))
out += "\n".join(rows) + "\n"
open(root + "/DESIGN.md", "w").write(out)
