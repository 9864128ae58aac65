"""DESIGN.md = tools/design_head.md + table of planted bugs (tools/catches.json)."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = open(f"{R}/tools/design_head.md").read()
c = json.load(open(f"{R}/tools/catches.json")) if os.path.exists(f"{R}/tools/catches.json") else {}
rows = ["| bug | property | breaks | needs | quick check |", "|---|---|---|---|---|"]
for i in sorted(os.listdir(f"{R}/seeded")):
    m = json.load(open(f"{R}/seeded/{i}/meta.json"))
    cl = lambda s: s.replace("|", "/").replace("\n", " ")
    rows.append(f"| {i} | {m['property']} | {cl(m['what_it_breaks'])} | {cl(m['needs'])} | {c.get(i, '?')} |")
tail = f"{R}/tools/design_tail.md"
open(f"{R}/DESIGN.md", "w").write(head + "\n".join(rows) + "\n" + (open(tail).read() if os.path.exists(tail) else ""))
