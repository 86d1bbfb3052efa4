// ---- program set-up, exploration and reporting
static void layoutGlobals(State& s) {
  u64 ca = 0x10000000, ma = 0x20000000, fa = 0x30000000;
  for (auto& f : *gMod) {
    if (f.isIntrinsic()) continue;
    KFunction* k = new KFunction; k->f = &f; k->name = f.getName().str(); k->addr = fa; fa += 16; k->merge = f.hasFnAttribute("sym-merge");
    gFuncs[&f] = k; gFuncByAddr[k->addr] = k; gGlobAddr[&f] = k->addr;
  }
  struct G { llvm::GlobalVariable* g; u64 a; u64 sz; bool c; };
  std::vector<G> gs;
  for (auto& g : gMod->globals()) {
    u64 sz = g.getValueType()->isSized() ? (u64)gDL->getTypeAllocSize(g.getValueType()) : 8; bool c = g.isConstant() || !g.hasInitializer();
    if (!g.hasInitializer()) sz = std::max<u64>(sz, 64);
    u64& n = c ? ca : ma; u64 al = std::max<u64>(16, g.getAlign() ? g.getAlign()->value() : 16); n = (n + al - 1) / al * al;
    gs.push_back({&g, n, sz, c}); gGlobAddr[&g] = n; n += sz + 64;
    if (g.getName().starts_with("_ZTI")) gTypeInfos[gGlobAddr[&g]] = &g;
  }
  for (auto& x : gs) {
    Obj* o = new Obj(x.a, (u32)x.sz, x.c ? OK_CONST : OK_GLOBAL, false);
    if (x.g->hasInitializer() && !x.g->getName().starts_with("llvm.")) initBytes(x.g->getInitializer(), o, 0);
    if (x.c) gConstObjs.push_back(Ref<Obj>(o)); else s.mem.push_back(Ref<Obj>(o));
  }
  auto lt = [](const Ref<Obj>& a, const Ref<Obj>& b) { return a->base < b->base; };
  std::sort(gConstObjs.begin(), gConstObjs.end(), lt); std::sort(s.mem.begin(), s.mem.end(), lt);
}
static void writeProcess(int idx, const std::set<std::string>& stops, bool timeUp, size_t left) {
  std::string fn = gOutDir + "." + std::to_string(getpid()) + ".part"; FILE* f = fopen(fn.c_str(), "w"); if (!f) die("cannot write " + fn);
  auto kv = [&](const char* k, double v) { fprintf(f, "S %s %.6f\n", k, v); };
  kv("paths", gS.paths); kv("steps", gS.steps); kv("forks", gS.forks); kv("merges", gS.merges); kv("queries", gS.queries); kv("sat", gS.sat); kv("unsat", gS.unsat); kv("unknown", gS.unknown); kv("cache_hits", gS.cacheHits); kv("domain_decided", gS.domDecided); kv("branch_queries", gS.modelDecided); kv("audits", gS.audits); kv("asserts", gS.asserts); kv("asserts_trivial", gS.assertsTrivial); kv("final_queries", gS.assertsZ3); kv("infeasible", gS.infeasible); kv("unexplored", gS.unexplored + left); kv("solver_s", gS.solverS); kv("processes", 1); kv("exprs", gExprCount);
  for (auto& x : stops) fprintf(f, "W %s\n", x.c_str());
  if (timeUp) fprintf(f, "W time-or-stop\n");
  for (auto& r : gReach) fprintf(f, "R %s\n", r.c_str());
  for (auto& o : gOut) fprintf(f, "O %s\n", o.c_str());
  std::set<std::string> lines, funcs;
  for (auto& p : gFuncs) if (p.second->entered) for (auto& q : p.second->insts) if (q.hit) {
    const llvm::DILocation* l = q.inst->getDebugLoc().get();
    while (l) { std::string file = l->getFilename().str(); if (file.compare(0, gSrcPrefix.size(), gSrcPrefix) == 0) { lines.insert(file.substr(gSrcPrefix.size()) + ":" + std::to_string(l->getLine())); if (auto* sp = l->getScope()->getSubprogram()) { std::string n = sp->getLinkageName().str(); if (n.empty()) n = sp->getName().str(); funcs.insert(n); } } l = l->getInlinedAt(); }
  }
  for (auto& l : lines) fprintf(f, "L %s\n", l.c_str());
  for (auto& n : funcs) fprintf(f, "F %s\n", llvm::demangle(n).c_str());
  fclose(f);
}
static size_t rssMB() { FILE* f = fopen("/proc/self/statm", "r"); if (!f) return 0; long a, b; if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); return (size_t)b * 4096 / 1048576; }

int main(int argc, char** argv) {
  std::string bc, entry, out, prep; int jobs = 8; double timeout = 600; size_t memMB = 3000; std::string keep;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() -> std::string { if (i + 1 >= argc) die("missing value for " + a); return argv[++i]; };
    if (a == "-bc") bc = nx(); else if (a == "-entry") entry = nx(); else if (a == "-jobs") jobs = atoi(nx().c_str()); else if (a == "-timeout") timeout = atof(nx().c_str());
    else if (a == "-max-steps") gMaxSteps = strtoull(nx().c_str(), 0, 10); else if (a == "-out") out = nx(); else if (a == "-src-prefix") gSrcPrefix = nx(); else if (a == "-prep") prep = nx(); else if (a == "-keep") keep = nx();
    else if (a == "-again") gAgain = true; else if (a == "-no-merge") gNoMerge = true; else if (a == "-no-split") gLeafSplit = false; else if (a == "-v") gVerbose = true; else if (a == "-mem") memMB = atoi(nx().c_str()); else if (a == "-max-viol") gMaxViol = atoi(nx().c_str()); else if (a == "-z3-timeout") gZ3Timeout = atoi(nx().c_str()); else if (a == "-samples") gMaxSamples = atoi(nx().c_str());
    else die("unknown option " + a);
  }
  llvm::SMDiagnostic err; gMod = llvm::parseIRFile(bc, err, gCtx); if (!gMod) die("cannot read " + bc + ": " + err.getMessage().str());
  gDL = &gMod->getDataLayout();
  if (!prep.empty()) {
    for (auto& f : *gMod) {
      if (f.isDeclaration()) continue;
      std::string n = f.getName().str(); bool isEntry = n.compare(0, 6, "check_") == 0;
      f.removeFnAttr(llvm::Attribute::OptimizeForSize);
      if (!isEntry) { f.setLinkage(llvm::GlobalValue::InternalLinkage); f.setComdat(nullptr); f.setDSOLocal(true); f.setVisibility(llvm::GlobalValue::DefaultVisibility); }
      LType* r = f.getReturnType();
      if (!isEntry && r->isIntegerTy() && r->getIntegerBitWidth() <= 32 && !f.hasFnAttribute(llvm::Attribute::AlwaysInline)) { f.addFnAttr(llvm::Attribute::NoInline); f.addFnAttr("sym-merge"); }
    }
    llvm::LoopAnalysisManager lam; llvm::FunctionAnalysisManager fam; llvm::CGSCCAnalysisManager cam; llvm::ModuleAnalysisManager mam;
    llvm::PipelineTuningOptions pto; pto.LoopUnrolling = false; pto.LoopVectorization = false; pto.SLPVectorization = false;
    llvm::PassBuilder pb(nullptr, pto); pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam); pb.crossRegisterProxies(lam, fam, cam, mam);
    { llvm::FunctionPassManager fpm; fpm.addPass(llvm::LowerAtomicPass()); for (auto& f : *gMod) if (!f.isDeclaration()) fpm.run(f, fam); } // one thread
    pb.buildPerModuleDefaultPipeline(llvm::OptimizationLevel::O1).run(*gMod, mam);
    std::error_code ec; llvm::raw_fd_ostream os(prep, ec); if (ec) die("cannot write " + prep);
    extern void symWriteBitcode(llvm::Module&, llvm::raw_ostream&); symWriteBitcode(*gMod, os); os.flush();
    return 0;
  }
  if (out.find('/') == std::string::npos) out = "./" + out;
  exprInit(); solverInit();
  std::string fn = entry; size_t c = entry.find(':');
  if (c != std::string::npos) { fn = entry.substr(0, c); std::string p = entry.substr(c + 1); size_t i = 0; while (i < p.size()) { size_t e = p.find(',', i); if (e == std::string::npos) e = p.size(); std::string kv = p.substr(i, e - i); size_t q = kv.find('='); if (q != std::string::npos) gParams[kv.substr(0, q)] = atoll(kv.c_str() + q + 1); i = e + 1; } }
  gOutDir = out;
  gSh = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (gSh) Shared();
  gSh->slots = jobs - 1; gSh->stop = 0; gSh->started = 1; gSh->finished = 0; gSh->viol = 0; gSh->paths = 0;
  double t0 = nowS(); gDeadline = t0 + timeout;
  State* s = new State; s->model = std::make_shared<VarVals>();
  layoutGlobals(*s);
  // static constructors, concretely
  std::vector<std::pair<u64, const LFunction*>> ctors;
  if (auto* g = gMod->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<llvm::ConstantArray>(g->getInitializer())) for (auto& o : ca->operands()) { auto* cs = cast<llvm::ConstantStruct>(o.get()); if (auto* f = dyn_cast<LFunction>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({constInt(cs->getOperand(0)), f}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  std::set<std::string> stops; WL wl;
  const LFunction* ef = gMod->getFunction(fn); if (!ef || ef->isDeclaration()) die("no entry " + fn);
  try {
    for (auto& p : ctors) { pushFrame(*s, getFunc(p.second), {}, 0, nullptr, nullptr); WL l; if (run(s, 0, l, nullptr) != ST_RET || !l.empty()) die("static constructor failed"); }
    s->steps = 0;
    pushFrame(*s, getFunc(ef), {}, 0, nullptr, nullptr); wl.push_back(s);
  } catch (EngineStop& e) { die(std::string("in static constructor: ") + e.why); } 
  int pfd[2]; if (pipe(pfd)) die("pipe"); bool root = true; pid_t rootPid = getpid(); double lastSplit = nowS(); int idx = 0;
  u64 it = 0;
  while (!wl.empty() && !gTimeUp) {
    if (gSh->stop) { gTimeUp = true; break; }
    if (wl.size() >= 2 && gSh->slots > 0 && nowS() - lastSplit > 0.15) {
      if (gSh->slots.fetch_sub(1) > 0) {
        gSh->started++;
        fflush(stdout); fflush(stderr);
        pid_t p = fork();
        if (p < 0) { gSh->started--; gSh->slots++; }
        else {
          WL a, b; for (size_t i = 0; i < wl.size(); i++) (i % 2 == 0 ? a : b).push_back(wl[i]);
          if (p == 0) { wl = a; gS = Stats(); gOut.clear(); gReach.clear(); stops.clear(); gSamples = 0; gMaxSamples = std::max<u64>(4, gMaxSamples / 4); root = false; prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() == 1) _exit(97); for (auto& f : gFuncs) for (auto& q : f.second->insts) q.hit = false; }
          else wl = b;
        }
      } else gSh->slots++;
      lastSplit = nowS();
    }
    if ((++it & 0x3f) == 0 && rssMB() > memMB) { stops.insert("memory-limit"); break; }
    State* cur = wl.back(); wl.pop_back();
    try {
      if (cur->stack.empty()) { delete cur; continue; }
      Step st = run(cur, 0, wl, nullptr);
      if (st == ST_RET && gAgain && !cur->turn) {
        gS.steps += cur->steps; cur->turn = 1; cur->cursor = 0; cur->steps = 0; cur->replay = std::make_shared<std::vector<InNode*>>(); for (InNode* n = cur->in; n; n = n->prev) cur->replay->push_back(n); std::reverse(cur->replay->begin(), cur->replay->end());
        pushFrame(*cur, getFunc(ef), {}, 0, nullptr, nullptr); wl.push_back(cur);
      } else if (st == ST_RET) {
        try { pathEnd(*cur); leakCheck(*cur); } catch (Viol& v) { violation(*cur, v.kind, v.msg); }
        delete cur;
      } else if (cur) { wl.push_back(cur); }
    } catch (EngineStop& e) { gS.unexplored++; stops.insert(e.why); if (stops.count("expression-limit")) break; }
  }
  writeProcess(idx, stops, gTimeUp, wl.size());
  gSh->finished++; gSh->slots++;
  if (!root) { while (wait(nullptr) > 0) {} _exit(0); }
  close(pfd[1]); char ch; while (read(pfd[0], &ch, 1) > 0) {}
  while (wait(nullptr) > 0) {}
  (void)rootPid;
  // aggregate
  std::map<std::string, double> st; std::set<std::string> why, reach, lines, funcs; std::vector<std::string> viol, paths, errs; 
  std::string dir = out.substr(0, out.rfind('/')), base = out.substr(out.rfind('/') + 1); std::vector<std::string> parts;
  { FILE* p = popen(("ls '" + dir + "'").c_str(), "r"); char b[4096]; while (fgets(b, 4096, p)) { std::string n(b); while (!n.empty() && n.back() == '\n') n.pop_back(); if (n.compare(0, base.size() + 1, base + ".") == 0 && n.size() > 5 && n.substr(n.size() - 5) == ".part") parts.push_back(dir + "/" + n); } pclose(p); }
  for (auto& pn : parts) {
    FILE* f = fopen(pn.c_str(), "r"); char* line = nullptr; size_t cap = 0; ssize_t n;
    while ((n = getline(&line, &cap, f)) > 0) {
      if (line[n - 1] == '\n') line[--n] = 0; std::string x(line + 2);
      switch (line[0]) {
        case 'S': { size_t sp = x.find(' '); st[x.substr(0, sp)] += atof(x.c_str() + sp); break; }
        case 'W': why.insert(x); break; case 'R': reach.insert(x); break; case 'L': lines.insert(x); break; case 'F': funcs.insert(x); break;
        case 'O': if (x.find("\"t\":\"violation\"") != std::string::npos) viol.push_back(x); else if (x.find("\"t\":\"path\"") != std::string::npos) paths.push_back(x); else errs.push_back(x); break;
      }
    }
    free(line); fclose(f); unlink(pn.c_str());
  }
  if (gSh->started != gSh->finished || parts.size() != (size_t)gSh->started.load()) errs.push_back("{\"t\":\"error\",\"msg\":\"a worker process died\"}");
  FILE* f = fopen(out.c_str(), "w"); if (!f) die("cannot write " + out);
  auto list = [&](const char* k, const std::set<std::string>& v) { fprintf(f, "\"%s\":[", k); bool first = true; for (auto& x : v) { fprintf(f, "%s\"%s\"", first ? "" : ",", esc(x).c_str()); first = false; } fprintf(f, "],\n"); };
  auto raw = [&](const char* k, const std::vector<std::string>& v) { fprintf(f, "\"%s\":[", k); bool first = true; for (auto& x : v) { fprintf(f, "%s%s", first ? "" : ",\n", x.c_str()); first = false; } fprintf(f, "],\n"); };
  fprintf(f, "{\"entry\":\"%s\",\"complete\":%s,\"wall_s\":%.2f,\n\"stats\":{", esc(entry).c_str(), why.empty() && errs.empty() && st["unexplored"] == 0 ? "true" : "false", nowS() - t0);
  { bool first = true; for (auto& p : st) { fprintf(f, "%s\"%s\":%.3f", first ? "" : ",", p.first.c_str(), p.second); first = false; } } fprintf(f, "},\n");
  list("why", why); list("reach", reach); list("lines", lines); list("functions", funcs); raw("violations", viol); raw("errors", errs); raw("paths", paths);
  fprintf(f, "\"end\":1}\n"); fclose(f);
  if (gVerbose) fprintf(stderr, "%s: %s paths=%.0f steps=%.0f queries=%.0f solver=%.1fs viol=%zu unexplored=%.0f wall=%.1f\n", entry.c_str(), why.empty() && errs.empty() ? "complete" : "INCOMPLETE", st["paths"], st["steps"], st["queries"], st["solver_s"], viol.size(), st["unexplored"], nowS() - t0);
  return 0;
}
