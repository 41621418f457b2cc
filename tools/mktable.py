"""Rewrites the table of planted bugs at the end of DESIGN.md.   mktable.py [output of seedcheck.py over all]"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(sys.argv[1]) if len(sys.argv) > 1 else []:
    w = l.split()
    if len(w) > 2 and w[2] in ("CAUGHT", "missed"):
        res[w[0]] = w[2]
p = os.path.join(V, "DESIGN.md")
t = open(p).read()
head = "| planted bug | property | breaks | needs | |\n|---|---|---|---|---|\n"
a = t.index(head) + len(head)
c = lambda s: str(s).replace("|", "/").replace("\n", " ")
rows = []
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], c(m["what_it_breaks"]), c(m["needs"]), {"missed": "not caught"}.get(res.get(i), "")))
t = t[:a] + "\n".join(rows) + "\n"
t = re.sub(r"\d+ planted bugs, `seeded", "%d planted bugs, `seeded" % len(rows), t)
open(p, "w").write(t)
