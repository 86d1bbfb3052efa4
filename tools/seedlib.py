"""makes and verifies planted bugs: a scratch copy of /repo in /tmp/seedrepo, its own build directory; writes seeded/<id>/"""
import json, os, re, subprocess, sys, shutil
S = "/tmp/seedrepo"; V = "/verif/seeded"
def sh(c, **kw): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
def prepare():
    if not os.path.exists(S):
        sh(f"git clone -q /repo {S}"); 
        for f in ("config.sh", "test.sh", "build.sh"):
            t = open(f"/opt/vp/{f}").read().replace("R=/repo", f"R={S}").replace("/opt/vp/config.sh", f"{S}.vp/config.sh"); os.makedirs(S + ".vp", exist_ok=True); open(f"{S}.vp/{f}", "w").write(t)
    sh(f"cd {S} && git checkout -q -- . && git clean -qfd -e _build && git fetch -q && git reset -q --hard $(git -C /repo rev-parse HEAD)")
DEMO = '''#!/bin/bash
# cwd: the repository; compiles the demonstration with the library's sources and runs it
here=$(cd "$(dirname "$0")" && pwd); out=$(mktemp -d); trap 'rm -r "$out"' EXIT
g++ -std=c++17 -g -O1 %s -include cstdint -Iinclude src/*.cpp "$here/demo.cpp" -o "$out/demo" > "$out/log" 2>&1 || { cat "$out/log"; exit 3; }
cd "$out" && timeout 60 ./demo
'''
def seed(id, prop, edits, needs, what, demo, flags="-DCOIL_CONFIG_ENABLE_ASSERTS=1 -DCOIL_CONFIG_CATCH_EXCEPTIONS=1", test=True, only=None, includes=""):
    if only and id not in only: return
    prepare()
    for f, old, new in edits:
        t = open(f"{S}/{f}").read()
        if t.count(old) != 1: print(id, "EDIT does not apply once:", f, t.count(old)); return
        open(f"{S}/{f}", "w").write(t.replace(old, new))
    d = f"{V}/{id}"; os.makedirs(d, exist_ok=True)
    patch = sh(f"cd {S} && git diff").stdout; open(f"{d}/patch.diff", "w").write(patch)
    src = '#include "coil/Coil.h"\n#include "coil/StdLibCompat.h"\n' + includes + '#include <cstdio>\n#include <cstdlib>\n#include <cstring>\n#include <string>\nusing namespace coil;\n#define REQUIRE(x) do { if (!(x)) { std::printf("failed: %s (line %d)\\n", #x, __LINE__); std::exit(1); } } while (0)\n' + demo.strip() + "\n"
    open(f"{d}/demo.cpp", "w").write(src); open(f"{d}/demo.sh", "w").write(DEMO % flags); os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(f"{d}/meta.json", "w"), indent=1)
    bad = sh(f"cd {S} && bash {d}/demo.sh"); good = sh(f"cd /repo && bash {d}/demo.sh")
    ok = bad.returncode != 0 and bad.returncode != 3 and good.returncode == 0
    res = ""
    if ok and test:
        p = sh(f"bash {S}.vp/test.sh /tmp/seed.json"); 
        try: r = json.load(open("/tmp/seed.json")); base = json.load(open("/opt/vp/BASELINE.json")); b = base["stable"]; miss = set(b) - set(r["passed"]); ok = not miss; res = f"{len(r['passed'])} passed" + (f" MISSING {sorted(miss)[:6]}" if miss else "")
        except Exception as e: ok = False; res = "TEST FAIL " + str(e) + p.stdout[-500:]
    print(("OK  " if ok else "BAD ") + f"{id}: demo patched={bad.returncode} clean={good.returncode} {res}", "" if ok else (bad.stdout[-600:] + good.stdout[-900:])); sys.stdout.flush()
    sh(f"cd {S} && git checkout -q -- .")
    if not ok: os.rename(d, f"/tmp/badseed-{id}") if not os.path.exists(f"/tmp/badseed-{id}") else shutil.rmtree(d)
