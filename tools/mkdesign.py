"""fills the table of planted bugs in DESIGN.md"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
c = lambda t: re.sub(r"\s+", " ", t).replace("|", "/")
for f in sorted(glob.glob(V+"/seeded/*/meta.json")):
    d = json.load(open(f)); n = os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s | %s |" % (n, d["property"], c(d["needs"])[:230], d.get("caught", d["property"])))
p = V+"/DESIGN.md"; s = open(p).read()
a, b = "<!-- bugs -->\n", "<!-- /bugs -->"
i, j = s.index(a)+len(a), s.index(b)
open(p, "w").write(s[:i]+"\n".join(rows)+"\n"+s[j:])
