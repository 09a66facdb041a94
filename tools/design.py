#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, properties.jsonl, MANIFEST.json, the last evidence, tools/notes.json and known_findings.txt."""
import json, os, glob
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
man = {c["property"]: c for c in json.load(open(R + "/MANIFEST.json"))["checks"]}
notes = json.load(open(R + "/tools/notes.json"))
try:
    table = json.load(open(R + "/tools/spaces.json"))
except Exception:
    table = {}
for p in props:
    f = f"{R}/evidence/{p['id']}.json"
    if os.path.exists(f):
        d = json.load(open(f))
        if d["tier"] == "quick" and d.get("violations", 0) == 0:
            c = d["coverage"]
            table[p["id"]] = dict(rule=c.get("rule", ""), wall=round(d["wall_s"]), assume=d.get("assumptions", []),
                spaces=[[s.get("space") or s.get("name"), s.get("executions") or s.get("size") or s.get("explored")] for s in c.get("spaces", [])])
json.dump(table, open(R + "/tools/spaces.json", "w"), indent=0)
known = [l.strip() for l in open(R + "/known_findings.txt") if l.startswith(("fixed:", "finding:"))]
o = open(R + "/tools/design_head.md").read().rstrip() + "\n\n## The properties\n"
for p in sorted(props, key=lambda p: p["id"]):
    i = p["id"]
    t = table.get(i, {})
    o += f"\n### {i} {p['title']}\n\n{p['statement']}\n\n"
    o += f"- Enumerated: {(p['quantifier'] if isinstance(p['quantifier'], str) else p['quantifier'].get('text', ''))}.\n" if p.get("quantifier") else ""
    o += f"- Decided by: {man[i]['technique']}.\n"
    if t.get("rule"):
        o += f"- {t['rule']}\n"
    if t.get("spaces"):
        o += "- Spaces of the quick tier (executions): " + ", ".join(f"{n} ({k})" for n, k in t["spaces"]) + f"; about {t['wall']} s.\n"
    for a in t.get("assume", []):
        o += f"- Assumption: {a}.\n"
    for n in notes.get(i, []):
        o += f"- {n}\n"
    o += f"- Bounds: {man[i]['level_note']}\n"
    fx = [k for k in known if f"property={i} " in k]
    if fx:
        o += "- Defects found: " + "; ".join(("known finding, " if k.startswith("finding") else "") + k.split(" ", 3 if k.startswith("fixed") else 2)[-1] + (f" ({k.split(' ')[2]})" if k.startswith("fixed") else "") for k in fx) + ".\n"
    s = [os.path.basename(os.path.dirname(m)) for m in sorted(glob.glob(R + "/seeded/*/meta.json")) if json.load(open(m))["property"] == i]
    if s:
        o += "- Planted bugs: " + ", ".join(s) + ".\n"
o += "\n## Planted bugs and what catches them\n\nEvery one of them is reported by the quick check of its property (vcheck runs them); where a check had to be strengthened for it, notes say so.\n\n| bug | property | what it breaks | needs |\n|---|---|---|---|\n"
for m in sorted(glob.glob(R + "/seeded/*/meta.json")):
    d = json.load(open(m))
    cl = lambda s: str(s).replace("|", "/").replace("\n", " ")
    o += f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {cl(d['what_it_breaks'])} | {cl(d['needs'])} |\n"
o += "\n" + open(R + "/tools/design_tail.md").read().rstrip() + "\n"
open(R + "/DESIGN.md", "w").write(o)
