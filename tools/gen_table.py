"""Refresh the table of seeded bugs in DESIGN.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append(f"| {f.split('/')[-2]} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
s = open(V + "/DESIGN.md").read()
t = "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end -->"
s = s.replace("@@TABLE@@", "<!-- table -->\n<!-- end -->")
s = re.sub(r"<!-- table -->.*?<!-- end -->", lambda m: t, s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
