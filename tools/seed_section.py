#!/usr/bin/env python3
"""Rewrites the list of planted bugs in DESIGN.md from seeded/*/meta.json and a detection log (det.py output)."""
import json, os, sys, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = set()
for a in sys.argv[1:]:
    for l in open(a):
        if "MISSED" in l: missed.add(l.split()[0])
by = {}
for i in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(R + "/seeded/%s/meta.json" % i)); by.setdefault(m["property"], []).append((i, m))
t = "| check | planted bugs it was run against |\n|---|---|\n"
for p in sorted(by): t += "| %s | %s |\n" % (p, "; ".join("`%s`%s" % (i, " (MISSED)" if i in missed else "") for i, _ in by[p]))
d = open(R + "/DESIGN.md").read()
b, e = "<!-- seeds -->\n", "<!-- /seeds -->\n"
i, j = d.index(b) + len(b), d.index(e)
open(R + "/DESIGN.md", "w").write(d[:i] + "\n" + t + "\n" + d[j:])
print(sum(map(len, by.values())), "bugs", len(missed), "missed")
