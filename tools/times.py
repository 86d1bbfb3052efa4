#!/usr/bin/env python3
"""where the time of the last runs went: times.py [ID...]"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or [f[:-5] for f in sorted(os.listdir(f"{V}/evidence")) if f.endswith(".json")]
for i in ids:
    e = json.load(open(f"{V}/evidence/{i}.json")); r = e["coverage"]["bounds_and_runs"]; s = sum(x["wall_s"] for x in r)
    print(i, e["tier"], "wall", e["wall_s"], "sum", round(s, 1), "  ".join(f'{x["entry"]}[{x["config"]}] {x["wall_s"]}' for x in sorted(r, key=lambda x: -x["wall_s"])[:4]))
