"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | what it breaks | needs |", "|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f)); rows.append(f"| {os.path.basename(os.path.dirname(f))} | {d['what_it_breaks']} | {d['needs']} |")
p = V + "/DESIGN.md"; s = open(p).read().split("\n<!-- seeds -->")[0].rstrip() + "\n\n<!-- seeds -->\n" + "\n".join(rows) + "\n"
open(p, "w").write(s); print(len(rows) - 2, "seeds")
