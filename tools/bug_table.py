"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and the output of try_seeds.py.

usage: bug_table.py TRY_SEEDS_OUTPUT...  (later lines win)
"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sys.argv[1:]:
    for line in open(f):
        p = line.split()
        if len(p) >= 3 and p[-1] in ("caught", "MISSED"):
            res[p[0]] = f"{p[1]} {'caught' if p[-1] == 'caught' else 'missed'}"
rows = ["| bug | needs | breaks | check |", "|----|----|----|----|"]
for b in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", b, "meta.json")))
    rows.append(f"| {b} | {m['needs']} | {m['what_it_breaks']} | {res.get(b, m['property'] + ' not run')} |".replace("\n", " "))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
mark = "<!-- table of planted bugs -->\n"
i = s.index(mark)
open(p, "w").write(s[:i] + mark + "\n" + "\n".join(rows) + "\n")
