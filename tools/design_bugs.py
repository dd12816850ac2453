"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (each is caught by its property's check)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + "/DESIGN.md"
s = open(p).read()
rows = ["| planted bug | needs | caught by |", "|----|----|----|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("| %s | %s | %s |" % (m.split("/")[-2], d["needs"].replace("|", "/"), d.get("caught_by", d["property"])))
a, b = "<!-- bugs -->\n", "<!-- /bugs -->\n"
s = s[: s.index(a) + len(a)] + "\n".join(rows) + "\n" + s[s.index(b):]
open(p, "w").write(s)
