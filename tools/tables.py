#!/usr/bin/env python3
"""tables.py REVLOG: renew the tables of sections 6 and 7 of DESIGN.md from seeded/*/meta.json and a log of reverted fixes."""
import os, json, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(V + "/DESIGN.md").read()
def put(d, tag, txt):
    a, b = "<!--%s-->" % tag, "<!--end %s-->" % tag
    if a not in d:
        d = d.replace(tag, a + "\n" + b, 1)
    i, j = d.index(a) + len(a), d.index(b)
    return d[:i] + "\n" + txt + "\n" + d[j:]
rows = ["", "| id | property | caught by its check | needs |", "|---|---|---|---|"]
res = json.load(open(V + "/tools/seedresults.json"))
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], res.get(i, "?"), m["needs"].replace("|", "/")))
d = put(d, "SEEDTABLE", "\n".join(rows))
if len(sys.argv) > 1:
    rows = ["", "| property | commit | the check says |", "|---|---|---|"]
    for l in open(sys.argv[1]):
        m = re.match(r"(C\d+) (\w+): (.*)", l)
        if not m:
            continue
        k = re.search(r"key=([^|]*)", m[3])
        t = k[1].strip() if k else ("does not compile (aligned builds)" if "|" in m[3] and "VIOLATED" not in m[3] else "the process dies: " + re.sub(r"\|.*", "", m[3]).strip())
        rows.append("| %s | %s | %s |" % (m[1], m[2], t))
    d = put(d, "REVTABLE", "\n".join(rows))
open(V + "/DESIGN.md", "w").write(d)
