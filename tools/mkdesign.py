#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design, the harness directives, known_findings.json and seeded/."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); T = os.path.join(V, "tools", "design")
exec(open(os.path.join(T, "props.py")).read())
cost = json.load(open(os.path.join(T, "cost.json"))) if os.path.exists(os.path.join(T, "cost.json")) else {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = open(os.path.join(T, "head.md")).read()
for q in props:
    i = q["id"]
    if i not in D: continue
    out += f"### {i} {q['title']}\n\n{D[i][0]} *Beyond tests:* {D[i][1]}"
    if i in cost: out += f" *Cost:* {cost[i]}."
    out += "\n\n"
    for f in sorted(glob.glob(os.path.join(V, "harness", "p", i.lower(), "*.go"))):
        b = t = None
        for l in open(f):
            m = re.match(r"//gosym:bounds (.*)", l)
            if m: b = m.group(1).strip()
            if l.startswith("//gosym:tier thorough"): t = " (thorough only)"
            m = re.match(r"func (Check\w+)\(\)", l)
            if m:
                out += f"* `{m.group(1)}`{t or ''}: {b or 'no input'}.\n"; b = t = None
    out += "\n"
k = json.load(open(os.path.join(V, "known_findings.json")))["findings"]
tail = open(os.path.join(T, "tail.md")).read()
fx = "\n".join(f"* {x['property']} ({x['commit']}): {x['what'].split(' ',3)[3]}" for x in k if x["status"] == "fixed")
kn = "\n".join(f"* {x['property']} `{x['harness']}`: {x['what']}" for x in k if x["status"] != "fixed")
ms = [(os.path.basename(d), json.load(open(os.path.join(d, "meta.json")))) for d in sorted(glob.glob(os.path.join(V, "seeded", "*")))]
st = "\n".join(f"| {n} | {m['property']} | {m['needs']} |" for n, m in ms)
mm = os.path.join(T, "missed.txt"); mm = open(mm).read().strip() if os.path.exists(mm) else ""
out += tail.replace("{{FIXES}}", fx).replace("{{KNOWN}}", kn).replace("{{SEEDS}}", st).replace("{{NSEEDS}}", str(len(ms))).replace("{{MOREMISSED}}", mm)
open(os.path.join(V, "DESIGN.md"), "w").write(out); print(len(out.splitlines()), "lines;", [q["id"] for q in props if q["id"] not in D])
