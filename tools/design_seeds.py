#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and /tmp/seeded.json."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- table of planted bugs -->\n"
prev = {}
p = os.path.join(V, "DESIGN.md")
head, _, tail = open(p).read().partition(MARK)
for l in tail.split("\n"):
    c = [x.strip() for x in l.strip().strip("|").split("|")]
    if len(c) == 5 and c[0] not in ("bug", "---"): prev[c[0]] = c[4]
res = json.load(open("/tmp/seeded.json")) if os.path.exists("/tmp/seeded.json") else {}
out = head + MARK + "\n| bug | property | needs | what breaks | caught by |\n|---|---|---|---|---|\n"
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    r = res.get(i)
    if r: by = ", ".join(c for c in sorted(r) if r[c] == 1) or "none"
    else: by = prev.get(i, "not tried")
    out += "| %s | %s | %s | %s | %s |\n" % tuple(x.replace("|", "\\|") for x in (i, m["property"], m["needs"], m["what_it_breaks"], by))
open(p, "w").write(out)
