"""Prints the table of planted bugs for DESIGN.md (section 7) from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
rows = ["| planted bug | property | needs | also caught by |", "|---|---|---|---|"]
also = json.load(open(os.path.join(V, "tools", "also_caught.json")))
for d in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, d, "meta.json")))
    rows.append(f"| `{d}` {m['what_it_breaks']} | {m['property']} | {m['needs']} | {also.get(d, '')} |")
p = os.path.join(V, "DESIGN.md")
t = open(p).read()
a = t.index("## 7. ")
b = t.index("## 8. ")
head = "## 7. Planted bugs and what catches them\n\nEvery one is caught by the check of its own property (column 2) unless the last column says otherwise.\n\n"
open(p, "w").write(t[:a] + head + "\n".join(rows) + "\n\n" + t[b:])
