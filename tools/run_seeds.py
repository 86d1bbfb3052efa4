"""applies each planted bug to a scratch copy and runs its property's check (or the ones named with -p) against it: run_seeds.py [-p all|C01,C02] [id...]"""
import json, os, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); import seedlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]; props = None
if "-p" in a: i = a.index("-p"); props = a[i + 1]; del a[i:i + 2]
for id in a or sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{id}/meta.json")); seedlib.prepare(); r = seedlib.sh(f"git -C {seedlib.S} apply {V}/seeded/{id}/patch.diff")
    if r.returncode: print(id, "does not apply"); continue
    ps = [m["property"]] if not props else props.split(",") if props != "all" else [f"C{i:02}" for i in range(1, 34) if i != 32]
    for p in ps:
        t = time.time(); r = subprocess.run(["python3", f"{V}/check.py", p], env=dict(os.environ, COIL_REPO=seedlib.S, COIL_STOP="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        first = [l for l in r.stdout.splitlines() if l.startswith("  ")][:1]
        if props != "all" or r.returncode: print(f"{id:24} {p} exit={r.returncode} {time.time()-t:.0f}s {first[0][:150] if first else r.stdout[-300:]}"); sys.stdout.flush()
    seedlib.sh(f"git -C {seedlib.S} checkout -q -- .")
