"""Fills the generated tables of DESIGN.md, between `<!-- NAME -->` and `<!-- /NAME -->`."""
import json, os, re
from config import PROPS, NOT_APPLICABLE
titles = {json.loads(l)["id"]: json.loads(l)["title"] for l in open("properties.jsonl")}
t = ["| id | property | unit, theorems | native oracle | notes |", "|---|---|---|---|---|"]
for i, c in PROPS.items():
    b = (" **Bounded:** " + "; ".join(c["bounded"])) if c.get("bounded") else ""
    t.append(f"| {i} | {titles[i]} | {', '.join(c['units'])}: {'; '.join(c['theorems'])} | {c['native'][0]} {' '.join(c['native'][1])} | {c['note']}{b} |")
for i, r in NOT_APPLICABLE.items():
    t.append(f"| {i} | {titles[i]} | not applicable | | {r} |")
s = ["| seed | property | manifests with | breaks |", "|---|---|---|---|"]
for d in sorted(os.listdir("seeded")):
    m = json.load(open(f"seeded/{d}/meta.json"))
    s.append(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
x = open("DESIGN.md").read()
for n, v in (("TABLE", t), ("SEEDS", s)):
    x = re.sub(f"<!-- {n} -->.*?<!-- /{n} -->", lambda m: f"<!-- {n} -->\n" + "\n".join(v).replace("\\", "\\\\") + f"\n<!-- /{n} -->", x, flags=re.S)
open("DESIGN.md", "w").write(x)
