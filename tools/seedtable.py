#!/usr/bin/env python3
"""Fill the table of planted changes in DESIGN.md between the seeds markers.
usage: seedtable.py RESULTS   (lines "<seed> <property> CAUGHT|MISSED ...")"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(sys.argv[1]):
    w = l.split()
    if len(w) > 2 and w[2] in ("CAUGHT", "MISSED"):
        m = re.search(r"C\d\d: \[(.*?)\]", l)
        res[w[0]] = (w[2].lower(), m.group(1) if m else "")
rows = ["| planted change | property | what it breaks | result |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    r, key = res.get(d, ("not run", ""))
    w = m["what_it_breaks"].replace("|", "\\|").strip()
    rows.append("| %s | %s | %s | %s%s |" % (d, m["property"], w, r, " (`%s`)" % key.replace("|", "\\|") if key else ""))
t = open(V + "/DESIGN.md").read()
t = re.sub(r"<!-- seeds -->.*?(<!-- /seeds -->|(?=\n## )|\Z)", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", t, count=1, flags=re.S)
open(V + "/DESIGN.md", "w").write(t)
