#!/usr/bin/env python3
# dev.py HARNESS ENTRY... : run entries and print a summary
import sys, lib, json
h=sys.argv[1]; t=lib.Tree()
sys.excepthook=lambda a,b,c: print(str(b)[:3500] if isinstance(b,lib.BuildError) else repr((a,b,__import__("traceback").format_tb(c))))
cfg="default"
for e in sys.argv[2:]:
    if e.startswith("cfg="): cfg=e[4:]; continue
    d=lib.symex(t, lib.T(h,e,cfg=cfg,steps=4000000000), 8, 300)
    s=d["stats"]
    print(e, "complete" if d["complete"] else "INCOMPLETE %s %s"%(d["why"],d["errors"][:3]), "%.1fs paths=%d steps=%d solver=%d/%.1fs"%(d["wall_s"],s.get("paths",0),s.get("steps",0),s.get("queries",0),s.get("solver_s",0)), d["reach"])
    for v in d["violations"][:3]:
        ok,st,tail=lib.confirm(t, lib.T(h,e,cfg=cfg), v)
        print("   V",v["kind"],v["msg"],v["where"][:600],lib.readable(v["inputs"]),"native:",st,tail[-400:])
    n=0
    for p in d["paths"][:12]:
        if "uf" in p["flags"]: continue
        st,out,tail=lib.run_native(t.native(h,cfg).result(),e,p["inputs"])
        if [l.rstrip() for l in out]!=["RUN"]+lib.obs_lines(p["obs"]) or st!="ok": print("   MISMATCH",st,lib.readable(p["inputs"]),out[:12],p["obs"][:12],tail[-500:])
        else: n+=1
    print("   validated",n)
