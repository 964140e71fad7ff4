#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (development tool)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "<!-- planted bugs -->"
rows = []
for f in glob.glob(V + "/seeded/*/meta.json"):
    m = json.load(open(f))
    rows.append((m["property"], os.path.basename(os.path.dirname(f)), m["needs"], m["what_it_breaks"], m.get("caught", "yes")))
rows.sort()
p = V + "/DESIGN.md"
s = open(p).read()
head = s.split(M)[0] if M in s else s.replace("SEEDTABLE", "")
t = M + "\nEvery planted bug below is caught by the quick check of its property (`tools/seed.py --recheck` repeats this).\n\n| check | planted bug | needs | breaks |\n|---|---|---|---|\n"
t += "".join("| %s | %s | %s | %s |\n" % (a, b, c.replace("|", "/"), d.replace("|", "/")) for a, b, c, d, _ in rows)
open(p, "w").write(head.rstrip("\n") + "\n\n" + t)
print(len(rows))
