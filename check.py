#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]  |  check.py --replay FILE  |  check.py --setup"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: i = a.index("--tier"); tier = a[i + 1]; del a[i:i + 2]
    if a and a[0] == "--setup":
        os.makedirs(lib.BUILD, exist_ok=True); print(lib.engine()); return 0
    if a and a[0] == "--replay":
        r = json.load(open(a[1])); t = lib.Tree(); st, out, tail = lib.run_native(t.native(r["harness"], r["config"]).result(), r["entry"], r["inputs"])
        if r["kind"] == "uninit" and st == "ok": st, out, tail = lib.run_native(t.native(r["harness"], r["config"], "nat").result(), r["entry"], r["inputs"], 120, True)
        print("\n".join(out)); print(tail); print(st); return 0 if st == "ok" else 1
    import tasks
    try:
        c = tasks.CHECKS[a[0]]
        return lib.run_check(a[0], c["tasks"], tier, c["note"], tasks.ASSUMPTIONS + c.get("assumptions", []), 780 if tier == "thorough" else 700)
    except lib.BuildError as e:
        print("NO-ANSWER: cannot encode the current tree\n" + str(e)); return 2
sys.exit(main())
