#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = set(open(os.path.join(here, "tools/missed.txt")).read().split())
rows = ["| bug | property | needs |", "|---|---|---|"]
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    rows.append("| %s%s | %s | %s |" % (d, " (missed before)" if d in missed else "", m["property"], m["needs"].replace("|", "/")))
p = os.path.join(here, "DESIGN.md")
t = open(p).read()
t = re.sub(r"\| bug \| property \| needs \|\n(\|.*\n)*", lambda _: "\n".join(rows) + "\n", t)
open(p, "w").write(t)
