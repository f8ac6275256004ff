#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    by.setdefault(json.load(open(d))["property"], []).append(os.path.basename(os.path.dirname(d)))
rows = "".join("| %s | %s |\n" % (p, ", ".join(by[p])) for p in sorted(by))
f = V + "/DESIGN.md"
t = open(f).read()
t = re.sub(r"(\| check \| planted bugs it catches \|\n\|---\|---\|\n)(\|.*\n)*", lambda m: m.group(1) + rows, t)
open(f, "w").write(t)
