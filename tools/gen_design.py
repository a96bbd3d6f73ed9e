"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | needs | caught by |", "|-----|-------|-----------|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    esc = lambda s: re.sub(r"\s+", " ", s).replace("|", "\\|")  # noqa: E731
    rows.append("| %s | %s | %s |" % (d, esc(m["needs"])[:220], m.get("caught_by", m["property"])))
p = V + "/DESIGN.md"
s = open(p).read()
a = s.index("<!-- seeds -->")
b = s.index("\n\nStrengthened after")
open(p, "w").write(s[:a] + "<!-- seeds -->\n\n" + "\n".join(rows) + s[b:])
