#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and tasks.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import tasks
NA = {"C32": "a statement about the time a compiler takes; there is no execution of the library's code to encode, and no solver query can decide it"}
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in tasks.CHECKS:
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough", "evidence_file": f"evidence/{i}.json",
                            "technique": "symbolic execution of the compiler's LLVM IR, assertions decided by an SMT solver (Z3)", "level": "model_checking", "level_note": tasks.CHECKS[i]["note"].strip() + " Counterexamples are replayed against the real code under ASan/UBSan before they are reported."})
    else: m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1); open(f"{V}/MANIFEST.json", "a").write("\n")
import subprocess
subprocess.run(["python3-vt", "-c", f"import json,jsonschema; jsonschema.validate(json.load(open('{V}/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))"], check=True)
