"""prints the table of planted bugs for DESIGN.md"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(here + "/seeded")):
    m = json.load(open(f"{here}/seeded/{d}/meta.json"))
    rows.append(f"| `{d}` | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
f = here + "/DESIGN.md"
s = open(f).read()
head = "| bug | caught by the check of | what it breaks | what it needs |\n|---|---|---|---|\n"
i = s.index("SEEDED_TABLE") if "SEEDED_TABLE" in s else s.index(head)
j = s.find("\n\n", i)
open(f, "w").write(s[:i] + head + "\n".join(rows) + ("\n" if j < 0 else s[j:]))
