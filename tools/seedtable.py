#!/usr/bin/env python3
"""seedtable.py SCORE.txt: rewrites the list of planted changes in DESIGN.md from seeded/*/meta.json and the output of tools/score.sh."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); rows = {}
for l in open(sys.argv[1]):
    m = re.match(r'(\S+) (C\d\d) (caught|MISSED) (\d+)s ?(?:([a-z0-9_]+):)?', l)
    if m: rows[m[1]] = (m[3], m[5] or "")
out = ["<!-- seeded -->", "| property | planted change: what it needs | caught in part |", "|---|---|---|"]; n = miss = 0
L = []
for d in os.listdir(os.path.join(V, "seeded")):
    f = os.path.join(V, "seeded", d, "meta.json")
    if os.path.exists(f): m = json.load(open(f)); L.append((m["property"], d, m["needs"]))
for p, d, needs in sorted(L):
    r = rows.get(d); n += 1; miss += not r or r[0] != "caught"
    out.append("| %s | `%s`: %s | %s |" % (p, d, needs.replace("|", "/"), "not run" if not r else r[1] if r[0] == "caught" else "missed"))
out.append("<!-- end seeded -->"); f = os.path.join(V, "DESIGN.md"); s = open(f).read()
s = re.sub(r'<!-- seeded -->.*?<!-- end seeded -->', lambda _: "\n".join(out), s, flags=re.S); open(f, "w").write(s); print(n, "planted,", miss, "not caught")
