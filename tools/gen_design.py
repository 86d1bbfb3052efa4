#!/usr/bin/env python3
"""rewrites the generated sections of DESIGN.md (between <!-- x --> and <!-- /x -->) from tasks.py, properties.jsonl and seeded/"""
import json, os, re, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import tasks
P = {d["id"]: d for d in map(json.loads, open(f"{V}/properties.jsonl"))}
LONG = "Long inputs: lines"
def per_property():
    o = []
    for p in sorted(P):
        o.append(f"### {p} {P[p]['title']}")
        if p not in tasks.CHECKS: o.append("Not applicable: " + json.load(open(f"{V}/MANIFEST.json"))["not_applicable"][0]["reason"] + "\n"); continue
        c = tasks.CHECKS[p]; note = c["note"].split(LONG)[0].strip()
        o.append(note)
        for tier, name in (("q", "quick"), ("t", "thorough adds")):
            g = {}
            for t in c["tasks"]:
                if t.tier == tier: e, _, b = t.entry.partition(":"); g.setdefault((t.harness, e, t.cfg), []).append(b)
            if g: o.append(f"- {name}: " + "; ".join(f"`{h}/{e}`" + (f" [{cfg}]" if cfg != "default" else "") + ((" " + " | ".join(b for b in bs if b)) if any(bs) else "") for (h, e, cfg), bs in g.items()))
        o.append("")
    return "\n".join(o)
def seeds():
    o = ["| seed | property | manifests when | caught by (quick) |", "|---|---|---|---|"]
    res = {}
    fn = f"{V}/tools/seed_results.txt"
    if os.path.exists(fn):
        for l in open(fn):
            a = l.split(None, 1); res[a[0]] = a[1].strip() if len(a) > 1 else ""
    for d in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
        m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
        o.append(f"| {i} | {m['property']} | {m['needs']} | {res.get(i, '')} |")
    return "\n".join(o)
t = open(f"{V}/DESIGN.md").read()
for k, f in (("per-property", per_property), ("seeds", seeds)):
    t = re.sub(rf"<!-- {k} -->.*?<!-- /{k} -->", lambda m: f"<!-- {k} -->\n{f()}\n<!-- /{k} -->", t, flags=re.S)
open(f"{V}/DESIGN.md", "w").write(t)
