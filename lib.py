"""Driver: builds the symbolic executor and the bitcode of /repo's current tree, runs the harness entries of a
property, replays every counterexample natively and writes the evidence file."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("COIL_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
CLANG = "clang++-18"
SAN = "signed-integer-overflow,shift,integer-divide-by-zero,unreachable,return,bool,float-cast-overflow,bounds"
BASE = ["-std=c++17", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-D__NO_CTYPE", "-include", f"{VERIF}/models/shim.h", f"-I{VERIF}/harness", "-w"]
BCFLAGS = BASE + ["-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-fno-builtin", "-fno-vectorize", "-fno-slp-vectorize",
                  f"-fsanitize={SAN}", "-fsanitize-trap=all", "-emit-llvm", "-c"]
NATFLAGS = BASE + ["-g1", "-O1", "-c"]
ASAN = ["-fsanitize=address," + SAN, "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-O0"]
CONFIGS = {
    "default": ["-DCOIL_CONFIG_ENABLE_ASSERTS=1", "-DCOIL_CONFIG_CATCH_EXCEPTIONS=1"],
    "nocatch": ["-DCOIL_CONFIG_ENABLE_ASSERTS=1"],
    "plain": [],
    "alias": ["-DCOIL_CONFIG_ENABLE_ASSERTS=1", "-DCOIL_CONFIG_CATCH_EXCEPTIONS=1", "-DCOIL_CONFIG_TYPE_NAME_USE_INTEGER_ALIAS=1"],
    "noassert": ["-DCOIL_CONFIG_CATCH_EXCEPTIONS=1"],
}
NCPU = os.cpu_count() or 4

class BuildError(Exception): pass

def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode: raise BuildError(" ".join(cmd) + "\n" + p.stdout[-6000:])
    return p.stdout

def digest(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:20]

def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f); h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:20]

def engine():
    out = os.path.join(BUILD, "engine-" + tree_hash(f"{VERIF}/engine")); exe = os.path.join(out, "symex")
    if not os.path.exists(exe):
        tmp = out + f".{os.getpid()}"
        sh(["bash", f"{VERIF}/engine/build.sh", tmp])
        try: os.rename(tmp, out)
        except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return exe

class Tree:
    """build products of the current tree of /repo, keyed by the content of every file they depend on"""
    def __init__(self):
        hs = f"{VERIF}/harness"
        self.key = tree_hash(f"{REPO}/include", f"{VERIF}/models") + digest(*[open(f"{hs}/{f}").read() for f in sorted(os.listdir(hs)) if f.endswith(".h")])
        self.key += digest(*[open(os.path.join(d, f), "rb").read() for d, _, fs in sorted(os.walk(f"{REPO}/src")) for f in sorted(fs) if not f.endswith(".cpp")])
        self.exe = engine()
        self.dir = os.path.join(BUILD, "cache"); os.makedirs(self.dir, exist_ok=True)
        self.pool = cf.ThreadPoolExecutor(NCPU * 2); self.jobs = {}
        self.src = sorted(os.path.join(d, f) for d, _, fs in os.walk(f"{REPO}/src") for f in fs if f.endswith(".cpp"))
    def once(self, name, fn):
        """one background job per product; cached on disk"""
        if name in self.jobs: return self.jobs[name]
        path = os.path.join(self.dir, name)
        def run():
            if os.path.exists(path): return path
            tmp = path + f".{os.getpid()}.tmp"; fn(tmp); os.rename(tmp, path); return path
        self.jobs[name] = self.pool.submit(run); self.jobs[name].name = name; return self.jobs[name]
    def text(self, src):
        t = open(src).read(); return [t] + [open(os.path.join(os.path.dirname(src), f)).read() for f in re.findall(r'^#include "(\w+\.cpp)"', t, re.M)]
    def inc(self, flags): return flags + [f"-I{REPO}/include"]
    def obj(self, src, cfg, kind, extra=()):
        base = os.path.basename(src)[:-4] + ("-" + digest(*extra)[:6] if extra else "")
        flags = {"bc": BCFLAGS, "asan": NATFLAGS + ASAN, "nat": NATFLAGS + ["-DNO_FILL"]}[kind]
        cmd = [CLANG] + self.inc(flags) + CONFIGS[cfg] + list(extra) + [src, "-o"]
        return self.once(f"{base}.{cfg}.{kind}-{digest(self.key, *self.text(src), *cmd)}.o", lambda o: sh(cmd + [o]))
    def parts(self, harness, cfg, kind):
        """the harness plus every library source; a harness may ask for a second copy of the library in another configuration"""
        hs = f"{VERIF}/harness/{harness}.cpp"; text = open(hs).read()
        fs = [self.obj(hs, cfg, kind)] + [self.obj(s, cfg, kind) for s in self.src]
        for cfg2, hs2 in re.findall(r"^// second-copy: (\w+) (\w+)", text, re.M):
            ren = [f"-Dcoil=coil_{cfg2}", f"-DCOPY={cfg2}"]
            fs += [self.obj(s, cfg2, kind, ren) for s in self.src] + [self.obj(f"{VERIF}/harness/{hs2}.cpp", cfg2, kind, ren)]
        return fs
    def bitcode(self, harness, cfg):
        fs = self.parts(harness, cfg, "bc") + [self.obj(f"{VERIF}/models/{m}.cpp", "default", "bc") for m in ("libc", "std")]
        def link(o):
            ins = [f.result() for f in fs]
            sh(["llvm-link-18"] + ins + ["-o", o + ".in"]); sh([self.exe, "-bc", o + ".in", "-prep", o]); os.unlink(o + ".in")
        return self.once(f"{harness}.{cfg}-{digest(self.exe, *[f.name for f in fs])}.bc", link)
    def native(self, harness, cfg, kind="asan"):
        fs = self.parts(harness, cfg, kind) + [self.obj(f"{VERIF}/harness/native.cpp", "default", kind)]
        def link(o):
            ins = [f.result() for f in fs]
            sh([CLANG] + ins + ["-o", o, "-rdynamic", "-ldl", "-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc"] + (["-fsanitize=address,undefined"] if kind == "asan" else []))
        return self.once(f"{harness}.{cfg}.{kind}-{digest(*[f.name for f in fs])}.exe", link)

def case_text(inputs): return "".join(f"{k} {n} {h}\n" for k, n, h in inputs)

def run_native(exe, entry, inputs, timeout=30, valgrind=False):
    """returns (status, observations, tail): status in ok / assert / mismatch / leak / crash / hang"""
    fn = os.path.join(BUILD, f"case.{os.getpid()}.{time.monotonic_ns()}")
    open(fn, "w").write(case_text(inputs))
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:detect_stack_use_after_return=1:allocator_may_return_null=0:max_allocation_size_mb=2000", UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1")
    cmd = [exe, entry, fn]
    if valgrind: cmd = ["valgrind", "-q", "--error-exitcode=98", "--exit-on-first-error=yes"] + cmd
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, preexec_fn=lambda: os.nice(0))
    except subprocess.TimeoutExpired:
        return "hang", [], f"no end within {timeout} s"
    finally: os.unlink(fn)
    out = p.stdout.decode("latin1").splitlines(); tail = p.stderr.decode("latin1")[-3000:]
    st = {0: "ok", 42: "assert", 43: "mismatch", 44: "leak", 2: "mismatch"}.get(p.returncode, "crash")
    return st, out, tail

def obs_lines(obs): return [f"{n} {h}".rstrip() for n, h in obs]

class T:
    """one entry with its bounds. tier 'q' runs always, 't' in the thorough tier only; need: labels that must be reached"""
    def __init__(self, harness, entry, need=(), tier="q", timeout=None, cfg="default", steps=None, merge=True, z3t=None, again=True):
        self.again = again; self.harness, self.entry, self.need, self.tier, self.timeout, self.cfg, self.steps, self.merge, self.z3t = harness, entry, list(need), tier, timeout, cfg, steps, merge, z3t

def symex(tree, t, jobs, timeout):
    bc = tree.bitcode(t.harness, t.cfg).result()
    out = os.path.join(BUILD, "run." + digest(os.getpid(), time.monotonic_ns(), t.entry) + ".json")
    cmd = [tree.exe, "-bc", bc, "-entry", t.entry, "-out", out, "-jobs", str(jobs), "-timeout", str(timeout), "-src-prefix", REPO + "/", "-mem", "2500", "-max-viol", "4"]
    if t.steps: cmd += ["-max-steps", str(t.steps)]
    if t.again: cmd += ["-again"]
    if not t.merge: cmd += ["-no-merge"]
    if t.z3t: cmd += ["-z3-timeout", str(t.z3t)]
    try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout + 120)
    except subprocess.TimeoutExpired: return {"entry": t.entry, "complete": False, "why": ["driver timeout"], "errors": [], "violations": [], "paths": [], "reach": [], "lines": [], "functions": [], "stats": {}, "wall_s": timeout}
    if p.returncode or not os.path.exists(out): raise BuildError(f"symex {t.entry}: {p.stdout[-2000:]}")
    d = json.load(open(out)); os.unlink(out); return d

CONFIRM = {"ok": False, "mismatch": False}
def confirm(tree, t, v):
    """replays one counterexample against the real code"""
    exe = tree.native(t.harness, t.cfg).result()
    st, out, tail = run_native(exe, t.entry, v["inputs"])
    if st in ("assert", "leak", "crash", "hang"): return True, st, tail
    if v["kind"] == "uninit" and st == "ok":
        st2, _, tail2 = run_native(tree.native(t.harness, t.cfg, "nat").result(), t.entry, v["inputs"], timeout=120, valgrind=True)
        if st2 not in ("ok", "mismatch"): return True, "uninitialised", tail2
    return False, st, tail

def known_findings():
    """lines 'known: property=<id> entry=<entry name> msg=<regex> inputs=<regex over the case text> :: <what fails>'"""
    r = []
    fn = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r"known: property=(\S+) entry=(\S+) msg=(.*?) inputs=(.*?) :: (.*)", l)
            if m: r.append(m.groups())
    return r

def run_check(prop, tasks, tier, note, assumptions, limit):
    t0 = time.time(); os.makedirs(BUILD, exist_ok=True); os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tasks = [t for t in tasks if t.tier == "q" or tier == "thorough"]
    seen = {}
    for t in tasks: seen[(t.harness, t.entry, t.cfg)] = t
    tasks = list(seen.values())
    tree = Tree(); known = known_findings()
    for t in tasks: tree.bitcode(t.harness, t.cfg)
    for t in tasks: tree.native(t.harness, t.cfg)
    tot = {}; funcs, lines = set(), set(); runs = []; viols = []; samples = []; validated = mism = 0; unconfirmed = []; noanswer = []; mismatches = []
    def one(t):
        left = limit - (time.time() - t0)
        if left < 5 or (stop and found): return t, None
        d = symex(tree, t, max(2, NCPU * 3 // 4) if len(tasks) > 1 else NCPU, min(t.timeout or (200 if tier == "quick" else 1e9), left))
        if d["violations"]: found.append(t)
        return t, d
    stop = os.environ.get("COIL_STOP"); found = [] # tools/run_seeds.py: the first violation is enough
    results = []
    with cf.ThreadPoolExecutor(2) as ex:
        for t, d in ex.map(one, tasks): results.append((t, d))
    build_and_run = time.time() - t0
    for t, d in results:
        if d is None: runs.append({"entry": t.entry, "complete": False, "why": ["time budget"]}); noanswer.append(f"{t.entry}: not started within the time budget"); continue
        for k, x in d["stats"].items(): tot[k] = tot.get(k, 0) + x
        funcs.update(d["functions"]); lines.update(d["lines"])
        miss = [l for l in t.need if l not in d["reach"]]
        runs.append({"harness": t.harness, "entry": d["entry"], "config": t.cfg, "complete": d["complete"], "paths": int(d["stats"].get("paths", 0)), "solver_queries": int(d["stats"].get("queries", 0)), "wall_s": d["wall_s"], **({"why": d["why"]} if d["why"] else {}), **({"errors": d["errors"]} if d["errors"] else {}), **({"unreached": miss} if miss else {})})
        if miss and not d["violations"]: noanswer.append(f"{t.entry}: never reached {miss} ({d['why']} {d['errors']})")
        elif not d["complete"] and not d["violations"]: noanswer.append(f"{t.entry}: INCOMPLETE {d['why']} {[e.get('msg') for e in d['errors']]}") if not d["stats"].get("paths") else None
        for v in d["violations"]: viols.append((t, v))
    def sample(a):
        t, p = a; exe = tree.native(t.harness, t.cfg).result()
        return t, p, run_native(exe, t.entry, p["inputs"])
    todo = []
    for t, d in results:
        if d is None: continue
        todo += [(t, p) for p in d["paths"] if "uf" not in p["flags"]][:24]
    native_fail = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for t, p, (st, out, tail) in ex.map(sample, todo):
            want = ["RUN"] + obs_lines(p["obs"])
            if st == "ok" and [l.rstrip() for l in out] == want: validated += 1
            elif st in ("assert", "leak", "crash", "hang"): native_fail.append((t, p, st, tail))
            else: mism += 1; mismatches.append({"entry": t.entry, "status": st, "inputs": p["inputs"], "engine": want[:40], "native": out[:40], "stderr": tail[-300:]})
            if len(samples) < 6 and p["inputs"] and (not samples or samples[-1]["entry"] != t.entry): samples.append({"entry": t.entry, "inputs": p["inputs"][:12], "observed": p["obs"][:8], "path_constraints": p["constraints"], "native": st})
    report = []
    order = {}
    for t, v in viols: order.setdefault((t.entry, v["kind"], v["msg"]), (t, v))
    for (t, v) in list(order.values())[:16]:
        ok, st, tail = confirm(tree, t, v)
        if ok: report.append((t, v, st, tail))
        else: unconfirmed.append({"entry": t.entry, "kind": v["kind"], "msg": v["msg"], "where": v["where"], "flags": v.get("flags"), "native": st, "inputs": v["inputs"]})
    for t, p, st, tail in native_fail:
        report.append((t, {"kind": "replayed-path", "msg": f"a path model fails natively ({st})", "inputs": p["inputs"], "where": ""}, st, tail))
    nviol = 0; out = []; printed = set()
    rdir = os.path.join(VERIF, "replays")
    for t, v, st, tail in report:
        text = case_text(v["inputs"]); detail = v["msg"] + " " + tail
        hit = [k for k in known if k[0] == prop and k[1] == t.entry.split(":")[0] and re.search(k[2], detail) and re.search(k[3], text, re.S)]
        if hit:
            if hit[0] not in printed: printed.add(hit[0]); out.append(f"KNOWN-FINDING: property={prop} {hit[0][4]}")
            continue
        nviol += 1; os.makedirs(rdir, exist_ok=True); fn = os.path.join(rdir, f"{prop}-{nviol}.json")
        json.dump({"property": prop, "harness": t.harness, "entry": t.entry, "config": t.cfg, "kind": v["kind"], "msg": v["msg"], "where": v["where"], "native": st, "native_output": tail, "inputs": v["inputs"], "rerun": f"python3 check.py --replay {fn}"}, open(fn, "w"), indent=1)
        out.append(f"VIOLATION property={prop} replay={fn}"); out.append(f"  {t.entry}: {v['kind']}: {v['msg']} [{st}] {readable(v['inputs'])}")
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking", "wall_s": round(wall, 2), "violations": nviol,
          "assumptions": assumptions,
          "coverage": {"states": int(tot.get("paths", 0)), "transitions": int(tot.get("steps", 0)), "traces_validated_against_impl": validated, "samples": samples or [{"note": "no path completed"}],
                       "explanation": note + " states = completed symbolic paths (each a class of inputs), transitions = instructions of the code under test and the harness executed symbolically.",
                       "functions_encoded": sorted(funcs), "functions_encoded_count": len(funcs), "source_lines_encoded": len(lines),
                       "bounds_and_runs": runs, "queries": int(tot.get("queries", 0)), "queries_sat": int(tot.get("sat", 0)), "queries_unsat": int(tot.get("unsat", 0)), "queries_unknown": int(tot.get("unknown", 0)),
                       "path_final_queries": int(tot.get("final_queries", 0)), "branch_queries_incl_cached": int(tot.get("branch_queries", 0)), "domain_decisions_audited_by_z3": int(tot.get("audits", 0)), "assertions": int(tot.get("asserts", 0)), "assertions_by_simplification": int(tot.get("asserts_trivial", 0)),
                       "branches_decided_by_byte_domains": int(tot.get("domain_decided", 0)), "solver_s": round(tot.get("solver_s", 0), 2), "forks": int(tot.get("forks", 0)), "merges": int(tot.get("merges", 0)),
                       "all_paths_within_bounds_explored": all(r.get("complete") for r in runs), "unconfirmed_counterexamples": unconfirmed, "no_answer": noanswer, "native_mismatches": mismatches}}
    fn = os.path.join(VERIF, "evidence", prop + ".json"); json.dump(ev, open(fn + ".tmp", "w"), indent=1); os.rename(fn + ".tmp", fn)
    for l in out: print(l)
    for u in unconfirmed: print(f"UNCONFIRMED {prop} {u['entry']}: {u['kind']}: {u['msg']} (native: {u['native']}) {readable(u['inputs'])}")
    for n in noanswer: print(f"NO-ANSWER {prop} {n}")
    for m in mismatches[:3]: print(f"MISMATCH {prop} {m['entry']} {m['status']} {readable(m['inputs'])}")
    print(f"{prop} {tier}: {'VIOLATED' if nviol else 'held'} on {int(tot.get('paths',0))} paths, {int(tot.get('queries',0))} solver queries ({tot.get('solver_s',0):.1f} s), {len(funcs)} functions, {validated} paths replayed, {sum(1 for r in runs if r.get('complete'))}/{len(runs)} runs complete, {wall:.1f} s")
    sys.stdout.flush()
    if nviol: return 1
    return 2 if noanswer else 0

def readable(inputs):
    r = []
    for k, n, h in inputs[:40]:
        b = bytes.fromhex(h)
        r.append(f"{n}={b!r}" if k == "b" else f"{n}={int.from_bytes(b, 'little')}")
    return " ".join(r)[:900]
