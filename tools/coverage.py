#!/usr/bin/env python3
"""source lines of the library no quick check executes: coverage.py [IDs]"""
import os, re, subprocess, sys, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import lib, tasks
ids = sys.argv[1:] or list(tasks.CHECKS); tree = lib.Tree(); ts = {}
for i in ids:
    for t in tasks.CHECKS[i]["tasks"]:
        if t.tier == "q": ts[(t.harness, t.entry, t.cfg)] = t
ts = list(ts.values())
def one(t):
    d = lib.symex(tree, t, 4, 200); return t, d
hit, exist, errs = set(), {}, []
with cf.ThreadPoolExecutor(3) as ex:
    for t, d in ex.map(one, ts): hit.update(map(str, d["lines"])); errs += [(t.entry, d["why"], d["errors"])] if d["errors"] else []
for bc in sorted({tree.bitcode(t.harness, t.cfg).result() for t in ts}):
    ll = subprocess.run(["llvm-dis-18", bc, "-o", "-"], stdout=subprocess.PIPE, text=True, errors="replace").stdout
    files = {m[1]: m[2] for m in re.finditer(r'^(!\d+) = !DIFile\(filename: "([^"]*)"', ll, re.M)}; sf, par = {}, {}
    for m in re.finditer(r'^(!\d+) = (?:distinct )?!(DISubprogram|DILexicalBlock|DILexicalBlockFile)\((.*)\)$', ll, re.M):
        f = re.search(r'file: (!\d+)', m[3]); sf[m[1]] = files.get(f[1]) if f else None
    for m in re.finditer(r'^!\d+ = (?:distinct )?!DILocation\(line: (\d+),.*?scope: (!\d+)', ll, re.M):
        f = sf.get(m[2])
        if f and f.startswith(lib.REPO) and m[1] != "0": exist.setdefault(f, set()).add(int(m[1]))
print("errors", errs[:10]); print("sample", sorted(hit)[:3])
tot = miss = 0
for f in sorted(exist):
    rel = f[len(lib.REPO) + 1:]; src = open(f).read().split("\n"); un = sorted(l for l in exist[f] if f"{rel}:{l}" not in hit and f"{f}:{l}" not in hit); tot += len(exist[f]); miss += len(un)
    if un: print("==", rel, f"{len(un)}/{len(exist[f])}"); [print(f"  {l}: {src[l-1].strip()[:140]}") for l in un]
print(f"{tot - miss}/{tot} lines")
if os.environ.get("UNINST"):
    for d, _, fs in os.walk(lib.REPO + "/include"):
        for f in sorted(fs):
            p = os.path.join(d, f); ex_ = exist.get(p, set())
            for i, l in enumerate(open(p).read().split("\n"), 1):
                if i not in ex_ and re.search(r"\breturn\b|\+\+|--|COIL_ASSERT|[^=]=[^=].*;|^\s+[\w.]+\(.*\);", l) and "= delete" not in l and "= default" not in l and "using" not in l and "static_assert" not in l and "constexpr" not in l and "#define" not in l: print("uninstantiated", p[len(lib.REPO) + 1:], i, l.strip()[:140])
