"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in os.listdir(V + "/seeded"):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append("| %s | %s | %s |" % (m["property"], d, m["needs"]))
t = "<!-- seeds -->\n| caught by | bug | needs |\n|---|---|---|\n" + "\n".join(sorted(rows)) + "\n<!-- end -->"
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"SEEDTABLE|<!-- seeds -->.*<!-- end -->", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
