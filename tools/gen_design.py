#!/usr/bin/env python3
"""Fill the property and planted-bug tables of DESIGN.md from properties.jsonl, engine/props.py and seeded/."""
import json, os, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/engine")
import props
titles = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl")}
out = []
for k, d in titles.items():
    p = props.P.get(k)
    if not p:
        continue
    out.append(f"### {k} {d['title']}")
    if p["vc"]:
        names = []
        for f in p["vc"]:
            names += re.findall(r"^VC void (\w+)\(", open(f"{V}/vc/{f}.cc").read(), re.M)
        names = [n for n in names if n.lower().startswith("c") and not n.startswith("contract_") and "__" not in n]
        out.append(f"*Contracts* (`vc/{'.cc`, `vc/'.join(p['vc'])}.cc`, {len(names)}): " + ", ".join(f"`{n}`" for n in names) + ".")
    else:
        out.append("*Contracts*: none of its own; see the note.")
    if p.get("explain"):
        out.append(p["explain"])
    if p.get("note"):
        out.append("*Limits*: " + p["note"])
    for n in p["native"]:
        out.append(f"*Bounded stand-in* `native/{n[0]}.cc`: {n[2]}.")
    if p.get("fuzz"):
        out.append("*Bounded stand-in*: the contracts themselves, executed natively on generated arguments.")
    out.append("")
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
caught = {}
if os.path.exists(V + "/tools/caught.json"):
    caught = json.load(open(V + "/tools/caught.json"))
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{s}/meta.json"))
    rows.append(f"| {s} | {m['property']} | {m['needs']} | {caught.get(s, '?')} |")
t = open(V + "/tools/DESIGN.in.md").read()
open(V + "/DESIGN.md", "w").write(t.replace("@@PROPS@@", "\n".join(out)).replace("@@SEEDED@@", "\n".join(rows)))
