#!/usr/bin/env python3
"""Writes the table of planted changes in DESIGN.md. With a results file (lines "name Cnn,Cnn"), also
which other checks report each change."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(V, "tools", "caught_by.txt")
by = dict(l.split(None, 1) for l in open(path).read().splitlines() if " " in l) if os.path.exists(path) else {}
rows = []
for n in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", n, "meta.json")))
    rows.append((m["property"], n, m["what_it_breaks"], by.get(n, m["property"]).strip()))
rows.sort()
t = "| property | change | what it breaks | reported by |\n|---|---|---|---|\n" + "".join("| %s | %s | %s | %s |\n" % r for r in rows)
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- table -->\n.*?<!-- end -->", lambda m: "<!-- table -->\n" + t + "<!-- end -->", s, flags=re.S)
open(p, "w").write(s)
