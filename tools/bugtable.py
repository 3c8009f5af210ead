"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for b in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/" + b + "/meta.json"))
    rows.append("| {} | {} | {} |".format(b, m["needs"].replace("|", "/"), m.get("caught", m["property"])))
p = V + "/DESIGN.md"
t = open(p).read()
t = re.sub(r"(?s)(\| bug \| what it needs \| caught by \|\n\|[-|]*\n).*?(\n\n|\Z)", lambda m: m.group(1) + "\n".join(rows) + "\n\n", t)
open(p, "w").write(t.rstrip("\n") + "\n")
