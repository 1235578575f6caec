#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/ and the results in work/plant.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(V + "/work/plant.json"))
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = f.split("/")[-2]
    m = json.load(open(f))
    c = res.get(i, {}).get("checks", {})
    got = ", ".join(sorted(p for p in c if c[p]["rc"] == 1)) or "none"
    rows.append((m["property"], i, m["needs"], got))
rows.sort()
t = "| planted bug | needs | caught by |\n|---|---|---|\n" + "".join("| `%s` | %s | %s |\n" % (i, n.replace("|", "/").replace("\n", " "), g) for p, i, n, g in rows)
d = open(V + "/DESIGN.md").read()
a, b = "<!-- planted -->\n", "<!-- /planted -->\n"
d = d[:d.index(a) + len(a)] + "\n" + t + "\n" + d[d.index(b):]
open(V + "/DESIGN.md", "w").write(d)
print(len(rows), "caught", sum(r[3] != "none" for r in rows))
