"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/seed_results.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(V + "/tools/seed_results.json"))
rows = ["| planted bug | property | needs | caught by |", "|----|----|----|----|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {res.get(i, 'not run')} |")
d = open(V + "/DESIGN.md").read()
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
d = d.replace("SEEDTABLE", t) if "SEEDTABLE" in d else re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda m: t, d, flags=re.S)
open(V + "/DESIGN.md", "w").write(d)
