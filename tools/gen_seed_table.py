#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md."""
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for d in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    rows.setdefault(m["property"], []).append("`%s` (needs %s)" % (i.split("-", 1)[1], m["needs"].rstrip(".")))
head = "## Planted bugs\n"
s = open(os.path.join(here, "DESIGN.md")).read().split(head)[0].rstrip() + "\n\n" + head + """
Each compiles, passes the tests, has a demonstration that fails with it, and is caught by the check of the
property it breaks. The names are those of the folders in `seeded/` without the property.

| check | planted bugs it catches |
|---|---|
"""
for p in sorted(rows):
    s += "| %s | %s |\n" % (p, "; ".join(rows[p]))
s += open(os.path.join(here, "tools", "mutation.md")).read() if os.path.exists(os.path.join(here, "tools", "mutation.md")) else ""
open(os.path.join(here, "DESIGN.md"), "w").write(s)
