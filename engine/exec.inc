// ---- the interpreter
#define NATIVES(X) \
  X(malloc) X(calloc) X(realloc) X(free) \
  X(_Znwm) X(_Znam) X(_ZnwmSt11align_val_t) X(_ZnamSt11align_val_t) X(_ZnwmRKSt9nothrow_t) X(_ZnamRKSt9nothrow_t) \
  X(_ZdlPv) X(_ZdlPvm) X(_ZdaPv) X(_ZdaPvm) X(_ZdlPvSt11align_val_t) X(_ZdlPvmSt11align_val_t) X(_ZdaPvSt11align_val_t) X(_ZdaPvmSt11align_val_t) X(_ZdlPvRKSt9nothrow_t) \
  X(memcpy) X(memmove) X(memset) X(memcmp) X(bcmp) \
  X(abort) X(exit) X(_exit) X(__assert_fail) X(_ZSt9terminatev) X(__cxa_pure_virtual) X(__cxa_call_unexpected) X(__cxa_throw_bad_array_new_length) \
  X(__cxa_allocate_exception) X(__cxa_free_exception) X(__cxa_throw) X(__cxa_begin_catch) X(__cxa_get_exception_ptr) X(__cxa_rethrow) \
  X(__cxa_guard_acquire) X(__cxa_guard_release) X(__cxa_guard_abort) X(__cxa_atexit) X(atexit) \
  X(sym_bytes) X(sym_u64) X(sym_u32) X(sym_u8) X(sym_choice) X(sym_assume) X(sym_assert) X(sym_reach) X(sym_observe) X(sym_observe_bytes) X(sym_param) X(sym_native) \
  X(sym_digits) X(sym_uf) X(sym_exc_endcatch) X(sym_exc_free) X(sym_is_concrete) X(sym_flag) X(sym_live) X(sym_strto_concrete) X(sym_fmt_concrete) X(sym_note)
enum NativeId { N_NONE = 0,
#define X(n) N_##n,
  NATIVES(X)
#undef X
  N_STDTHROW, N_LAST };
static int nativeId(const std::string& n) {
  static std::unordered_map<std::string, int> m;
  if (m.empty()) {
#define X(n) m[#n] = N_##n;
    NATIVES(X)
#undef X
  }
  auto it = m.find(n); if (it != m.end()) return it->second;
  if (n.compare(0, 11, "_ZSt20__thr") == 0 || (n.compare(0, 4, "_ZSt") == 0 && n.find("__throw_") != std::string::npos)) return N_STDTHROW;
  return 0;
}

static inline const Val& rd(Frame& f, int i) { return i >= 0 ? f.r[i] : gPool[~i]; }

static inline void jump(Frame& f, const Edge& e) {
  if (e.trivial) { if (!e.copies.empty()) { Val v = rd(f, e.copies[0].src); f.r[e.copies[0].dst] = v; } }
  else {
    static thread_local std::vector<Val> tmp; tmp.clear();
    for (auto& c : e.copies) for (int i = 0; i < c.n; i++) tmp.push_back(rd(f, opAt(c.src, i)));
    size_t k = 0; for (auto& c : e.copies) for (int i = 0; i < c.n; i++) f.r[c.dst + i] = tmp[k++];
  }
  f.pc = e.target;
}
static void complete(State& s, const std::vector<Val>& ret) { // finish a call instruction in the top frame
  Frame& f = s.top(); KInst& q = f.f->insts[f.pc];
  if (q.dst >= 0) for (int i = 0; i < q.n && i < (int)ret.size(); i++) f.r[q.dst + i] = ret[i];
  if (q.invoke) jump(f, q.edges[0]); else f.pc++;
}
static void complete1(State& s, Val v) { std::vector<Val> r{v}; complete(s, r); }
static void complete0(State& s) { std::vector<Val> r; complete(s, r); }

// ---- uninitialised values
static Expr* renameUninit(Expr* e, std::unordered_map<Expr*, Expr*>& memo) {
  if (!e->sup->uninit) return e;
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  Expr* r;
  Expr* k[3] = {nullptr, nullptr, nullptr};
  if (e->op == O_VAR) { u32 id = (u32)e->c; r = mkVar(0x7ffe0000u, gVars[id].width, true, gVars[id].name + "'" + std::to_string(id)); memo[e] = r; return r; }
  for (int i = 0; i < 3; i++) if (e->k[i]) k[i] = renameUninit(e->k[i], memo);
  switch (e->op) {
    case O_ITE: r = mkIte(k[0], k[1], k[2]); break;
    case O_CONCAT: r = mkConcat(k[0], k[1]); break;
    case O_EXTRACT: r = mkExtract(k[0], (unsigned)e->c, e->width); break;
    case O_ZEXT: r = mkZext(k[0], e->width); break;
    case O_SEXT: r = mkSext(k[0], e->width); break;
    case O_FCMP: r = mkFcmp((unsigned)e->c, e->aux, k[0], k[1]); break;
    case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: r = mkFbin(e->op, e->aux, k[0], k[1]); break;
    case O_FPCAST: r = mkFcast(e->aux / 4, e->aux % 4, k[0]); break;
    case O_SI2FP: case O_UI2FP: r = mkI2F(e->op, e->aux, k[0]); break;
    case O_FP2SI: case O_FP2UI: r = mkF2I(e->op, e->aux, e->width, k[0]); break;
    default: r = mkBin(e->op, k[0], k[1]);
  }
  memo[e] = r; return r;
}
static void checkUninit(State& s, Expr* c, const char* what) {
  if (!c->sup->uninit) return;
  std::unordered_map<Expr*, Expr*> memo; Expr* c2 = renameUninit(c, memo);
  Expr* d = mkNot(mkEq(c, c2));
  if (d->isConst() && !d->c) return;
  std::vector<std::pair<u32, u64>> m;
  int r = solve(s, d, &m);
  if (r < 0) throw EngineStop{"solver-unknown"};
  if (r == 1) { setModel(s, m); throw Viol{"uninit", std::string(what) + " depends on uninitialised memory"}; }
}

// ---- frames
static void pushFrame(State& s, KFunction* k, const std::vector<Val>& args, size_t nfixedSlots, std::vector<Val>* va, std::vector<LType*>* vaTy) {
  decodeFunction(k); k->entered = true;
  if (s.stack.size() > 4000) throw Viol{"recursion", "unbounded recursion (more than 4000 frames)"};
  Ref<Frame> r(new Frame); r->f = k; r->r.resize(k->nslots);
  size_t ai = 0;
  for (size_t i = 0; i < k->argSlot.size(); i++) for (int j = 0; j < k->argN[i]; j++) { if (ai >= args.size()) throw EngineStop{"argument-mismatch"}; r->r[k->argSlot[i] + j] = args[ai++]; }
  for (size_t i = 0; i < k->argSlot.size(); i++) if (k->argByval[i]) {
    u64 src = r->r[k->argSlot[i]].lo, n = k->argByval[i]; if (r->r[k->argSlot[i]].e) throw EngineStop{"byval-symbolic"};
    u64 dst = allocObj(s, n, OK_STACK, true); r->allocas.push_back(dst);
    int si; Obj* so = access(s, src, n, false, &si, "by-value argument read"); int di; access(s, dst, n, true, &di, "copy");
    Obj* d = writable(s, di); u32 o0 = u32(src - so->base);
    for (u64 b = 0; b < n; b++) { u8 m = so->nonconc ? so->m[o0 + b] : 0; if (!m) d->setC(b, so->b[o0 + b]); else if (m == 1) d->setS(b, so->s[o0 + b]); }
    r->r[k->argSlot[i]] = cv(dst);
  }
  if (va) { r->va = *va; r->vaTy = *vaTy; }
  s.stack.push_back(r);
}
static void popFrame(State& s) {
  Ref<Frame> f = s.stack.back();
  for (u64 a : f->allocas) { int idx; Obj* o = findObj(s, a, &idx); if (o && idx >= 0 && o->base == a) removeObj(s, idx); }
  s.stack.pop_back();
}

// ---- exceptions
static std::map<u64, const llvm::GlobalVariable*> gTypeInfos;
static std::string tiName(u64 a) { auto it = gTypeInfos.find(a); return it == gTypeInfos.end() ? "?" : it->second->getName().str(); }
static bool tiMatch(u64 thrown, u64 want, int depth = 0) {
  if (!want || thrown == want) return true;
  if (depth > 16) return false;
  auto it = gTypeInfos.find(thrown); if (it == gTypeInfos.end()) return false;
  const llvm::GlobalVariable* g = it->second;
  if (!g->hasInitializer()) {
    static const std::map<std::string, std::string> bases = {{"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}};
    auto b = bases.find(g->getName().str()); if (b == bases.end()) return false;
    for (auto& t : gTypeInfos) if (t.second->getName() == b->second) return tiMatch(t.first, want, depth + 1);
    // base not in module by address: compare by name
    auto w = gTypeInfos.find(want); return w != gTypeInfos.end() && w->second->getName() == b->second;
  }
  auto* cs = dyn_cast<llvm::ConstantStruct>(g->getInitializer()); if (!cs) return false;
  if (cs->getNumOperands() == 3 && cs->getOperand(2)->getType()->isPointerTy()) return tiMatch(constInt(cs->getOperand(2)), want, depth + 1);
  if (cs->getNumOperands() > 4) { // __vmi_class_type_info: only offset-0 bases supported
    for (unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2) { if (tiMatch(constInt(cs->getOperand(i)), want, depth + 1)) { u64 fl = constInt(cs->getOperand(i + 1)); if (fl >> 8) throw EngineStop{"exception-base-offset"}; return true; } }
  }
  return false;
}
static ExcInfo* excOf(State& s, u64 p) { for (auto& e : s.excs) if (e.ptr == p) return &e; throw EngineStop{"unknown-exception-object"}; }
// clause scan of a landing pad: 2 handler (sel set), 1 cleanup, 0 nothing
static int scanPad(KFunction* k, const Edge& e, u64 tinfo, u64* sel) {
  KInst& q = k->insts[e.target]; auto* lp = cast<llvm::LandingPadInst>(q.inst);
  for (unsigned i = 0; i < lp->getNumClauses(); i++) {
    if (!lp->isCatch(i)) throw EngineStop{"exception-filter"};
    u64 want = constInt(lp->getClause(i));
    if (tiMatch(tinfo, want)) { *sel = want ? (u32)want : 1; return 2; }
  }
  *sel = 0; return lp->isCleanup() ? 1 : 0;
}
static void unwind(State& s, u64 exc) { // the top frame's current instruction is the throwing call/resume
  ExcInfo* x = excOf(s, exc); u64 sel; bool found = false;
  for (size_t i = s.stack.size(); i-- > 0;) {
    Frame& f = *s.stack[i]; KInst& q = f.f->insts[f.pc];
    if (q.op == K_CALL && q.invoke && scanPad(f.f, q.edges[1], x->tinfo, &sel) == 2) { found = true; break; }
  }
  if (!found) throw Viol{"exception", "exception of type " + tiName(x->tinfo) + " propagates to the caller without a handler"};
  while (!s.stack.empty()) {
    Frame& f = s.top(); KInst& q = f.f->insts[f.pc];
    if (q.op == K_CALL && q.invoke && scanPad(f.f, q.edges[1], x->tinfo, &sel)) {
      jump(f, q.edges[1]);
      KInst& lp = f.f->insts[f.pc];
      if (lp.dst >= 0) { f.r[lp.dst] = cv(exc); if (lp.n > 1) f.r[lp.dst + 1] = cv(sel); }
      f.pc++;
      return;
    }
    popFrame(s);
  }
  throw EngineStop{"unwind"};
}

// ---- bytes
static void copyBytes(State& s, u64 dst, u64 src, u64 n, bool mayOverlap) {
  if (!n) return;
  int si; Obj* so = access(s, src, n, false, &si, "read"); u32 o0 = u32(src - so->base);
  int di; access(s, dst, n, true, &di, "write");
  if (!mayOverlap && src != dst && ((src < dst && src + n > dst) || (dst < src && dst + n > src))) throw Viol{"memory", "memcpy with overlapping ranges"};
  if (si >= 0 && si == di) { // within one object, in the order that reads every byte before it is overwritten
    Obj* d = writable(s, di); u32 o1 = u32(dst - d->base); if (o1 == o0) return;
    if (!d->nonconc) { memmove(&d->b[o1], &d->b[o0], n); return; }
    for (u64 k = 0; k < n; k++) { u32 i = u32(o1 < o0 ? k : n - 1 - k); u8 m = d->m[o0 + i]; if (!m) d->setC(o1 + i, d->b[o0 + i]); else if (m == 1) { auto e = d->s[o0 + i]; d->setS(o1 + i, e); } else d->setU(o1 + i); }
    return;
  }
  Ref<Obj> keep(so); Obj* d = writable(s, di); u32 o1 = u32(dst - d->base);
  if (!so->nonconc && !d->nonconc) { memcpy(&d->b[o1], &so->b[o0], n); return; }
  for (u64 i = 0; i < n; i++) {
    u8 m = so->nonconc ? so->m[o0 + i] : 0;
    if (!m) d->setC(o1 + i, so->b[o0 + i]); else if (m == 1) d->setS(o1 + i, so->s[o0 + i]);
    else if (si >= 0) { // materialise so that copies stay equal
      // stays uninitialised in the copy: comparisons between the two are not relied upon
      d->setU(o1 + i);
    } else d->setC(o1 + i, 0);
  }
}
static void setBytes(State& s, u64 dst, const Val& v, u64 n) {
  if (!n) return;
  int di; access(s, dst, n, true, &di, "write"); Obj* d = writable(s, di); u32 o = u32(dst - d->base);
  if (!v.e) { for (u64 i = 0; i < n; i++) d->setC(o + i, (u8)v.lo); return; }
  Expr* e = v.e->width > 8 ? mkExtract(v.e, 0, 8) : v.e;
  for (u64 i = 0; i < n; i++) d->setS(o + i, e);
}
static std::string readCStr(State& s, u64 p) {
  std::string r;
  for (;;) { Val v = loadBytes(s, p++, 1, 8); if (v.e) throw EngineStop{"symbolic-label"}; if (!v.lo) return r; r += (char)v.lo; if (r.size() > 500) throw EngineStop{"label"}; }
}
static const char* internStr(const std::string& x) { static std::set<std::string> S; return S.insert(x).first->c_str(); }

static const char* trapName(u64 k) {
  static const char* n[] = {"add-overflow", "builtin-unreachable", "cfi-check-fail", "divrem-overflow", "dynamic-type-cache-miss", "float-cast-overflow", "function-type-mismatch", "implicit-conversion", "invalid-builtin", "invalid-objc-cast", "load-invalid-value", "missing-return", "mul-overflow", "negate-overflow", "nullability-arg", "nullability-return", "nonnull-arg", "nonnull-return", "out-of-bounds", "pointer-overflow", "shift-out-of-bounds", "sub-overflow", "type-mismatch", "alignment-assumption", "vla-bound-not-positive"};
  return k < sizeof n / sizeof *n ? n[k] : "trap";
}
static u64 doAlloc(State& s, u64 n, ObjKind k, u64 align) {
  if (n > (16u << 20)) throw Viol{"allocation", "allocation of " + std::to_string(n) + " bytes requested"};
  return allocObj(s, n, k, true, align);
}
static void doFree(State& s, u64 p, ObjKind k, i64 sz) {
  if (!p) return;
  int idx; Obj* o = findObj(s, p, &idx);
  if (!o || idx < 0) throw Viol{"memory", "free of " + descAddr(s, p) + " (double free or wild pointer)"};
  if (o->base != p || o->kind < OK_MALLOC) throw Viol{"memory", "free of a pointer that is not the start of a heap object: " + descAddr(s, p)};
  if (o->kind != k) throw Viol{"memory", "deallocation function does not match the allocation function"};
  if (sz >= 0 && (u64)sz != o->size) throw Viol{"memory", "sized deallocation with the wrong size (" + std::to_string(sz) + " for " + std::to_string(o->size) + ")"};
  removeObj(s, idx);
}

static Step doNative(State*& sp, KInst& q, int id, WL& wl) {
  State& s = *sp;
  auto A = [&](int i) -> Val { return rd(*s.stack.back(), q.argSlots[i]); };
  auto C = [&](int i) -> u64 { Val v = A(i); return concretize(s, v, 64, wl); };
  auto Cw = [&](int i, unsigned w) -> u64 { Val v = A(i); return concretize(s, v, w, wl); };
  auto again = [&](char kind, const char* name, size_t n) -> InNode* { if (!s.turn) return nullptr; if (s.cursor >= s.replay->size()) throw Viol{"assert", "a second run on the same input asks for more input"}; InNode* r = (*s.replay)[s.cursor++]; if (r->kind != kind || r->name != name || r->es.size() != n) throw Viol{"assert", "a second run on the same input asks for other input"}; return r; };
  auto addIn = [&](char kind, const char* name, std::vector<Expr*> es) { s.in = new InNode{kind, name, (u32)es.size(), std::move(es), s.in}; };
  switch (id) {
    case N_malloc: { u64 n = C(0); complete1(s, cv(doAlloc(s, n, OK_MALLOC, 16))); return ST_CONT; }
    case N_calloc: { u64 n = C(0), m = C(1); u128 t = (u128)n * m; if (t > (16u << 20)) throw Viol{"allocation", "huge calloc"}; u64 p = allocObj(s, (u64)t, OK_MALLOC, false); complete1(s, cv(p)); return ST_CONT; }
    case N_realloc: {
      u64 p = C(0), n = C(1); u64 r = doAlloc(s, n, OK_MALLOC, 16);
      if (p) { int idx; Obj* o = findObj(s, p, &idx); if (!o || idx < 0 || o->base != p || o->kind != OK_MALLOC) throw Viol{"memory", "realloc of an invalid pointer: " + descAddr(s, p)}; copyBytes(s, r, p, std::min<u64>(n, o->size), false); doFree(s, p, OK_MALLOC, -1); }
      complete1(s, cv(r)); return ST_CONT; }
    case N_free: { u64 p = C(0); doFree(s, p, OK_MALLOC, -1); complete0(s); return ST_CONT; }
    case N__Znwm: case N__ZnwmRKSt9nothrow_t: { u64 n = C(0); complete1(s, cv(doAlloc(s, n, OK_NEW, 16))); return ST_CONT; }
    case N__Znam: case N__ZnamRKSt9nothrow_t: { u64 n = C(0); complete1(s, cv(doAlloc(s, n, OK_NEWARR, 16))); return ST_CONT; }
    case N__ZnwmSt11align_val_t: { u64 n = C(0), a = C(1); complete1(s, cv(doAlloc(s, n, OK_NEW, std::max<u64>(a, 16)))); return ST_CONT; }
    case N__ZnamSt11align_val_t: { u64 n = C(0), a = C(1); complete1(s, cv(doAlloc(s, n, OK_NEWARR, std::max<u64>(a, 16)))); return ST_CONT; }
    case N__ZdlPv: case N__ZdlPvSt11align_val_t: case N__ZdlPvRKSt9nothrow_t: { u64 p = C(0); doFree(s, p, OK_NEW, -1); complete0(s); return ST_CONT; }
    case N__ZdlPvm: case N__ZdlPvmSt11align_val_t: { u64 p = C(0), n = C(1); doFree(s, p, OK_NEW, (i64)n); complete0(s); return ST_CONT; }
    case N__ZdaPv: case N__ZdaPvSt11align_val_t: { u64 p = C(0); doFree(s, p, OK_NEWARR, -1); complete0(s); return ST_CONT; }
    case N__ZdaPvm: case N__ZdaPvmSt11align_val_t: { u64 p = C(0), n = C(1); doFree(s, p, OK_NEWARR, (i64)n); complete0(s); return ST_CONT; }
    case N_memcpy: case N_memmove: {
      u64 n = C(2); Val d = A(0), x = A(1);
      if (n > (64u << 20)) throw Viol{"memory", "copy of " + std::to_string(n) + " bytes"};
      if (n) { u64 da = resolveAddr(s, d, n, wl, true), sa = resolveAddr(s, x, n, wl, false); copyBytes(s, da, sa, n, id == N_memmove); }
      complete1(s, d); return ST_CONT; }
    case N_memset: {
      u64 n = C(2); Val d = A(0), v = A(1);
      if (n > (64u << 20)) throw Viol{"memory", "memset of " + std::to_string(n) + " bytes"};
      if (n) { u64 da = resolveAddr(s, d, n, wl, true); setBytes(s, da, v, n); }
      complete1(s, d); return ST_CONT; }
    case N_memcmp: case N_bcmp: {
      u64 n = C(2), a = C(0), b = C(1); 
      if (n) { int i; access(s, a, n, false, &i, "read"); access(s, b, n, false, &i, "read"); }
      Expr* r = mkConst(0, 32); 
      for (u64 i = n; i-- > 0;) { Val x = loadBytes(s, a + i, 1, 8), y = loadBytes(s, b + i, 1, 8); Expr *ex = toE(x, 8), *ey = toE(y, 8); r = mkIte(mkEq(ex, ey), r, mkIte(mkBin(O_ULT, ex, ey), mkConst(0xffffffffu, 32), mkConst(1, 32))); }
      complete1(s, fromE(r)); return ST_CONT; }
    case N_abort: throw Viol{"abort", "abort() called"};
    case N_exit: case N__exit: throw Viol{"abort", "exit() called"};
    case N___assert_fail: throw Viol{"assert-fail", "assertion in the code failed: " + readCStr(s, C(0))};
    case N__ZSt9terminatev: throw Viol{"exception", "std::terminate called"};
    case N___cxa_pure_virtual: throw Viol{"memory", "pure virtual call"};
    case N___cxa_call_unexpected: throw Viol{"exception", "unexpected exception"};
    case N___cxa_throw_bad_array_new_length: throw Viol{"allocation", "bad array new length"};
    case N_STDTHROW: throw Viol{"exception", "standard library threw"};
    case N___cxa_allocate_exception: { u64 n = C(0); complete1(s, cv(doAlloc(s, n, OK_EXC, 16))); return ST_CONT; }
    case N___cxa_free_exception: { u64 p = C(0); doFree(s, p, OK_EXC, -1); complete0(s); return ST_CONT; }
    case N___cxa_throw: { u64 p = C(0), t = C(1), d = C(2); s.excs.push_back({p, t, d, 0}); unwind(s, p); return ST_CONT; }
    case N___cxa_get_exception_ptr: { u64 p = C(0); excOf(s, p); complete1(s, cv(p)); return ST_CONT; }
    case N___cxa_begin_catch: { u64 p = C(0); ExcInfo* x = excOf(s, p); x->handlers = (x->handlers < 0 ? -x->handlers : x->handlers) + 1; s.caught.push_back(p); 
      u64 r = p; if (tiName(x->tinfo).compare(0, 5, "_ZTIP") == 0) { Val v = loadBytes(s, p, 8, 64); r = v.lo; }
      complete1(s, cv(r)); return ST_CONT; }
    case N___cxa_rethrow: { if (s.caught.empty()) throw Viol{"exception", "rethrow without a current exception"}; u64 p = s.caught.back(); ExcInfo* x = excOf(s, p); x->handlers = -x->handlers; unwind(s, p); return ST_CONT; }
    case N_sym_exc_endcatch: { // returns the destructor address to run (or 0); *out = exception
      if (s.caught.empty()) { complete1(s, cv(0)); return ST_CONT; }
      u64 p = s.caught.back(), out = C(0); ExcInfo* x = excOf(s, p);
      u64 d = 0; storeBytes(s, out, 8, 64, cv(0));
      if (x->handlers < 0) { x->handlers++; s.caught.pop_back(); }
      else { if (--x->handlers == 0) { d = x->dtor; storeBytes(s, out, 8, 64, cv(p)); } s.caught.pop_back(); }
      complete1(s, cv(d)); return ST_CONT; }
    case N_sym_exc_free: { u64 p = C(0); for (size_t i = 0; i < s.excs.size(); i++) if (s.excs[i].ptr == p) { s.excs.erase(s.excs.begin() + i); break; } doFree(s, p, OK_EXC, -1); complete0(s); return ST_CONT; }
    case N___cxa_guard_acquire: { u64 g = C(0); Val v = loadBytes(s, g, 1, 8); complete1(s, cv(v.lo ? 0 : 1)); return ST_CONT; }
    case N___cxa_guard_release: { u64 g = C(0); storeBytes(s, g, 1, 8, cv(1)); complete0(s); return ST_CONT; }
    case N___cxa_guard_abort: complete0(s); return ST_CONT;
    case N___cxa_atexit: case N_atexit: complete1(s, cv(0)); return ST_CONT;
    case N_sym_bytes: {
      u64 p = C(0), n = C(1); const char* nm = internStr(readCStr(s, C(2)));
      if (InNode* r = again('b', nm, n)) { for (u64 i = 0; i < n; i++) storeBytes(s, p + i, 1, 8, fromE(r->es[i])); complete0(s); return ST_CONT; }
      std::vector<Expr*> es; for (u64 i = 0; i < n; i++) { Expr* e = freshVar(s, 8, false, std::string(nm) + "[" + std::to_string(i) + "]"); es.push_back(e); storeBytes(s, p + i, 1, 8, fromE(e)); }
      addIn('b', nm, es); complete0(s); return ST_CONT; }
    case N_sym_u64: case N_sym_u32: case N_sym_u8: {
      const char* nm = internStr(readCStr(s, C(0))); unsigned w = id == N_sym_u64 ? 64 : id == N_sym_u32 ? 32 : 8;
      if (InNode* r = again('u', nm, 1)) { complete1(s, fromE(r->es[0])); return ST_CONT; }
      Expr* e = freshVar(s, w, false, nm); addIn('u', nm, {e}); complete1(s, fromE(e)); return ST_CONT; }
    case N_sym_choice: {
      u64 n = Cw(0, 32); const char* nm = internStr(readCStr(s, C(1)));
      if (n == 0 || n > 250) throw EngineStop{"sym_choice"};
      if (InNode* r = again('c', nm, 1)) { complete1(s, fromE(r->es[0])); return ST_CONT; }
      for (u64 i = 1; i < n; i++) {
        State* o = cloneState(s); o->in = new InNode{'c', nm, 1, {mkConst(i, 32)}, o->in}; complete1(*o, cv(i)); wl.push_back(o);
      }
      addIn('c', nm, {mkConst(0, 32)}); complete1(s, cv(0)); return ST_CONT; }
    case N_sym_assume: {
      Val v = A(0); unsigned w = scalarWidth(q.argTy[0]);
      if (v.e) {
        Expr* c = mkNot(mkEq(v.e, mkConst(0, w)));
        if (!c->isConst()) {
          std::vector<std::pair<u32, u64>> mT, mF; bool cur; int r = decide(s, c, &mT, &mF, cur);
          if (r == 1) return ST_DEAD;
          if (r == 3) { setModel(s, mT); addConstraint(s, c); s.escaped = true; }
          complete0(s); return ST_CONT;
        }
        v = cv((u64)c->c);
      }
      if (!v.lo) return ST_DEAD;
      complete0(s); return ST_CONT; }
    case N_sym_assert: {
      Val v = A(0); unsigned w = scalarWidth(q.argTy[0]); std::string msg = readCStr(s, C(1));
      gS.asserts++;
      if (!v.e) { gS.assertsTrivial++; if (!(v.lo & m64(w))) throw Viol{"assert", msg}; complete0(s); return ST_CONT; }
      Expr* c = mkNot(mkEq(v.e, mkConst(0, w)));
      if (c->isConst()) { gS.assertsTrivial++; if (!c->c) throw Viol{"assert", msg}; complete0(s); return ST_CONT; }
      checkUninit(s, c, ("assertion '" + msg + "'").c_str());
      std::vector<std::pair<u32, u64>> mT, mF; bool cur; int r = decide(s, c, &mT, &mF, cur);
      if (r & 1) {
        State* bad = cloneState(s); setModel(*bad, mF); addConstraint(*bad, mkNot(c)); violation(*bad, "assert", msg); delete bad;
        if (r == 1) return ST_DEAD;
        setModel(s, mT); addConstraint(s, c);
      } else s.asserts = new PCNode{c, s.asserts, 0};
      complete0(s); return ST_CONT; }
    case N_sym_reach: { const char* l = internStr(readCStr(s, C(0))); bool f = false; for (auto x : s.reached) if (x == l) f = true; if (!f) s.reached.push_back(l); complete0(s); return ST_CONT; }
    case N_sym_note: { if (gVerbose) fprintf(stderr, "note: %s\n", readCStr(s, C(0)).c_str()); complete0(s); return ST_CONT; }
    case N_sym_observe: { if (s.turn) { complete0(s); return ST_CONT; } const char* nm = internStr(readCStr(s, C(1))); Val v = A(0); s.obs = new ObsNode{nm, {toE(v, 64)}, nullptr, s.obs}; complete0(s); return ST_CONT; }
    case N_sym_observe_bytes: {
      if (s.turn) { complete0(s); return ST_CONT; }
      u64 p = C(0), n = C(1); const char* nm = internStr(readCStr(s, C(2))); std::vector<Expr*> es;
      for (u64 i = 0; i < n; i++) es.push_back(toE(loadBytes(s, p + i, 1, 8), 8));
      s.obs = new ObsNode{nm, es, nullptr, s.obs}; complete0(s); return ST_CONT; }
    case N_sym_param: { std::string n = readCStr(s, C(0)); auto it = gParams.find(n); complete1(s, it != gParams.end() ? cv((u64)it->second) : A(1)); return ST_CONT; }
    case N_sym_native: complete1(s, cv(0)); return ST_CONT;
    case N_sym_live: { u64 n = 0; for (auto& o : s.mem) if (o->kind >= OK_MALLOC) n++; complete1(s, cv(n)); return ST_CONT; }
    case N_sym_flag: { std::string n = readCStr(s, C(0)); s.reached.push_back(internStr("!" + n)); complete0(s); return ST_CONT; }
    case N_sym_is_concrete: { u64 p = C(0), n = C(1); bool c = true; for (u64 i = 0; i < n && c; i++) if (loadBytes(s, p + i, 1, 8).e) c = false; complete1(s, cv(c)); return ST_CONT; }
    case N_sym_digits: { // sym_digits(u64 v, u32 n, char* buf): the n decimal digits of v (v < 10^n)
      Val v = A(0); u64 n = Cw(1, 32), p = C(2);
      if (!v.e) { u64 x = v.lo; for (u64 i = n; i-- > 0;) { storeBytes(s, p + i, 1, 8, cv('0' + x % 10)); x /= 10; } complete0(s); return ST_CONT; }
      std::vector<Expr*> dkey{mkConst(9999, 32), v.e, mkConst(n, 32)};
      for (UFEnt* u = s.uf; u; u = u->prev) if (u->key == dkey) { for (u64 i = 0; i < n; i++) storeBytes(s, p + i, 1, 8, fromE(u->val[i])); complete0(s); return ST_CONT; }
      u64 cur = (u64)evalExpr(v.e, *s.model); std::vector<Expr*> d(n); 
      for (u64 i = n; i-- > 0;) {
        Expr* e = freshVar(s, 8, false, "digit"); d[i] = e; setModel(s, (u32)e->c, '0' + cur % 10); cur /= 10;
        addConstraint(s, mkAnd(mkBin(O_ULE, mkConst('0', 8), e), mkBin(O_ULE, e, mkConst('9', 8))));
        storeBytes(s, p + i, 1, 8, fromE(e));
      }
      Expr* h = mkConst(0, 64);
      for (u64 i = 0; i < n; i++) { if (i == 19) { Expr* top = mkConst(1844674407370955161ull, 64); addConstraint(s, mkOr(mkBin(O_ULT, h, top), mkAnd(mkEq(h, top), mkBin(O_ULE, d[i], mkConst('5', 8))))); } h = mkBin(O_ADD, mkBin(O_MUL, h, mkConst(10, 64)), mkZext(mkBin(O_SUB, d[i], mkConst('0', 8)), 64)); }
      addConstraint(s, mkEq(h, v.e)); s.uf = new UFEnt{dkey, d, s.uf};
      complete0(s); return ST_CONT; }
    case N_sym_uf: { // sym_uf(u32 tag, const void* key, u64 n, void* out, u64 outn)
      u64 tag = Cw(0, 32), kp = C(1), n = C(2), op = C(3), on = C(4);
      std::vector<Expr*> key{mkConst(tag, 32)}; for (u64 i = 0; i < n; i++) key.push_back(toE(loadBytes(s, kp + i, 1, 8), 8));
      UFEnt* hit = nullptr; for (UFEnt* u = s.uf; u && !hit; u = u->prev) if (u->key == key && u->val.size() == on) hit = u;
      if (!hit) {
        std::vector<Expr*> val; for (u64 i = 0; i < on; i++) val.push_back(freshVar(s, 8, false, "uf"));
        std::vector<UFEnt*> prev; for (UFEnt* u = s.uf; u; u = u->prev) if (u->key.size() == key.size() && u->key[0] == key[0] && u->val.size() == on) prev.push_back(u);
        bool done = false;
        for (UFEnt* u : prev) {
          Expr* same = mkConst(1, 1); for (size_t i = 1; i < key.size(); i++) same = mkAnd(same, mkEq(key[i], u->key[i]));
          if (same->isConst() && !same->c) continue;
          Expr* ve = mkConst(1, 1); for (u64 i = 0; i < on; i++) ve = mkAnd(ve, mkEq(val[i], u->val[i]));
          if (!done && evalExpr(same, *s.model)) { for (u64 i = 0; i < on; i++) setModel(s, (u32)val[i]->c, (u64)evalExpr(u->val[i], *s.model)); done = true; }
          addConstraint(s, mkOr(mkNot(same), ve));
        }
        s.uf = hit = new UFEnt{key, val, s.uf};
        s.reached.push_back(internStr("!uf"));
      }
      for (u64 i = 0; i < on; i++) storeBytes(s, op + i, 1, 8, fromE(hit->val[i]));
      complete0(s); return ST_CONT; }
    case N_sym_strto_concrete: { // (kind, text, n, out): the real conversion of concrete text
      u64 kind = Cw(0, 32), p = C(1), n = C(2), out = C(3); std::string t; for (u64 i = 0; i < n; i++) t += (char)loadBytes(s, p + i, 1, 8).lo;
      errno = 0; u8 raw[16] = {0}; unsigned rn;
      if (kind == 100) { float v = strtof(t.c_str(), nullptr); memcpy(raw, &v, rn = 4); } else if (kind == 101) { double v = strtod(t.c_str(), nullptr); memcpy(raw, &v, rn = 8); } else { long double v = strtold(t.c_str(), nullptr); memcpy(raw, &v, rn = 10); }
      int e = errno; for (unsigned i = 0; i < rn; i++) storeBytes(s, out + i, 1, 8, cv(raw[i]));
      complete1(s, cv((u32)e)); return ST_CONT; }
    case N_sym_fmt_concrete: { // (fmt, kind, value, out, cap): the real conversion of a concrete floating value
      std::string fmt = readCStr(s, C(0)); u64 kind = Cw(1, 32), p = C(2), out = C(3), cap = Cw(4, 32); u8 raw[16] = {0}; unsigned rn = kind == 2 ? 10 : 8; for (unsigned i = 0; i < rn; i++) raw[i] = (u8)loadBytes(s, p + i, 1, 8).lo;
      char b[5200]; int n; if (kind == 2) { long double v; memset(&v, 0, sizeof v); memcpy(&v, raw, 10); n = snprintf(b, sizeof b, fmt.c_str(), v); } else { double v; memcpy(&v, raw, 8); n = snprintf(b, sizeof b, fmt.c_str(), v); }
      if (n < 0 || (u64)n >= cap) throw EngineStop{"float-format-length"};
      for (int i = 0; i < n; i++) storeBytes(s, out + i, 1, 8, cv((u8)b[i]));
      complete1(s, cv((u32)n)); return ST_CONT; }
    default: throw EngineStop{"native"};
  }
}

static Expr* fabsE(Expr* e) { unsigned w = e->width; return mkBin(O_AND, e, mkConst(maskW(w - 1), w)); }

static void doIntrinsic(State*& sp, KInst& q, WL& wl) {
  State& s = *sp; using namespace llvm;
  auto A = [&](int i, int j = 0) -> Val { return rd(*s.stack.back(), opAt(q.argSlots[i], j)); };
  auto E = [&](int i, int j, unsigned w) -> Expr* { return toE(A(i, j), w); };
  unsigned w = q.argTy.empty() ? 0 : (q.argTy[0]->isIntegerTy() || q.argTy[0]->isPointerTy() || isFP(q.argTy[0])) ? scalarWidth(q.argTy[0]) : isa<FixedVectorType>(q.argTy[0]) ? scalarWidth(cast<FixedVectorType>(q.argTy[0])->getElementType()) : 0;
  auto perLane = [&](std::function<Expr*(int)> fn) { std::vector<Val> r; for (int j = 0; j < q.n; j++) { Expr* e = fn(j); Val v = fromE(e); if (e->width > 64) v.e = e; r.push_back(v); } complete(s, r); };
  switch (q.intr) {
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: {
      Val nv = A(2); u64 n = concretize(s, nv, 64, wl); Val d = A(0), x = A(1);
      if (n > (64u << 20)) throw Viol{"memory", "copy of " + std::to_string(n) + " bytes"};
      if (n) { u64 da = resolveAddr(s, d, n, wl, true), sa = resolveAddr(s, x, n, wl, false); copyBytes(s, da, sa, n, q.intr == Intrinsic::memmove); }
      complete0(s); return; }
    case Intrinsic::memset: {
      Val nv = A(2); u64 n = concretize(s, nv, 64, wl); Val d = A(0), v = A(1);
      if (n > (64u << 20)) throw Viol{"memory", "memset of " + std::to_string(n) + " bytes"};
      if (n) { u64 da = resolveAddr(s, d, n, wl, true); setBytes(s, da, v, n); }
      complete0(s); return; }
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: {
      Val p = A(1); if (p.e) { complete0(s); return; }
      int idx; Obj* o = findObj(s, p.lo, &idx);
      if (o && idx >= 0 && o->kind == OK_STACK && o->base == p.lo) {
        o = writable(s, idx);
        if (q.intr == Intrinsic::lifetime_start) { o->dead = false; o->m.assign(o->size, 2); o->nonconc = o->size; } else o->dead = true;
      }
      complete0(s); return; }
    case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
      Expr *a = E(0, 0, w), *b = E(1, 0, w); bool sg = q.intr == Intrinsic::sadd_with_overflow || q.intr == Intrinsic::ssub_with_overflow || q.intr == Intrinsic::smul_with_overflow;
      Op op = (q.intr == Intrinsic::sadd_with_overflow || q.intr == Intrinsic::uadd_with_overflow) ? O_ADD : (q.intr == Intrinsic::ssub_with_overflow || q.intr == Intrinsic::usub_with_overflow) ? O_SUB : O_MUL;
      Expr* r = mkBin(op, a, b); Expr* o;
      if (op == O_ADD && !sg) o = mkBin(O_ULT, r, a);
      else if (op == O_SUB && !sg) o = mkBin(O_ULT, a, b);
      else if (op == O_MUL && !sg && b->isConst() && b->c) o = mkBin(O_ULT, mkConst(maskW(w) / b->c, w), a);
      else if (op == O_MUL && !sg && a->isConst() && a->c) o = mkBin(O_ULT, mkConst(maskW(w) / a->c, w), b);
      else {
        unsigned ww = op == O_MUL ? 2 * w : w + 1; if (ww > 128) throw EngineStop{"wide-overflow"};
        Expr* x = sg ? mkSext(a, ww) : mkZext(a, ww), *y = sg ? mkSext(b, ww) : mkZext(b, ww); Expr* full = mkBin(op, x, y);
        o = mkNot(mkEq(full, sg ? mkSext(r, ww) : mkZext(r, ww)));
      }
      std::vector<Val> rr{fromE(r), fromE(o)}; complete(s, rr); return; }
    case Intrinsic::uadd_sat: case Intrinsic::usub_sat: perLane([&](int j) { Expr *a = E(0, j, w), *b = E(1, j, w); if (q.intr == Intrinsic::usub_sat) return mkIte(mkBin(O_ULT, a, b), mkConst(0, w), mkBin(O_SUB, a, b)); Expr* r = mkBin(O_ADD, a, b); return mkIte(mkBin(O_ULT, r, a), mkConst(maskW(w), w), r); }); return;
    case Intrinsic::ptrmask: perLane([&](int j) { return mkBin(O_AND, E(0, j, 64), E(1, j, 64)); }); return;
    case Intrinsic::umin: perLane([&](int j) { Expr *a = E(0, j, w), *b = E(1, j, w); return mkIte(mkBin(O_ULT, a, b), a, b); }); return;
    case Intrinsic::umax: perLane([&](int j) { Expr *a = E(0, j, w), *b = E(1, j, w); return mkIte(mkBin(O_ULT, a, b), b, a); }); return;
    case Intrinsic::smin: perLane([&](int j) { Expr *a = E(0, j, w), *b = E(1, j, w); return mkIte(mkBin(O_SLT, a, b), a, b); }); return;
    case Intrinsic::smax: perLane([&](int j) { Expr *a = E(0, j, w), *b = E(1, j, w); return mkIte(mkBin(O_SLT, a, b), b, a); }); return;
    case Intrinsic::abs: perLane([&](int j) { Expr* a = E(0, j, w); return mkIte(mkBin(O_SLT, a, mkConst(0, w)), mkBin(O_SUB, mkConst(0, w), a), a); }); return;
    case Intrinsic::ctpop: perLane([&](int j) { Expr* a = E(0, j, w); Expr* r = mkConst(0, w); for (unsigned b = 0; b < w; b++) r = mkBin(O_ADD, r, mkZext(mkExtract(a, b, 1), w)); return r; }); return;
    case Intrinsic::ctlz: perLane([&](int j) { Expr* a = E(0, j, w); Expr* r = mkConst(w, w); for (unsigned b = 0; b < w; b++) r = mkIte(mkEq(mkExtract(a, b, 1), mkConst(1, 1)), mkConst(w - 1 - b, w), r); return r; }); return;
    case Intrinsic::cttz: perLane([&](int j) { Expr* a = E(0, j, w); Expr* r = mkConst(w, w); for (unsigned b = w; b-- > 0;) r = mkIte(mkEq(mkExtract(a, b, 1), mkConst(1, 1)), mkConst(b, w), r); return r; }); return;
    case Intrinsic::bswap: perLane([&](int j) { Expr* a = E(0, j, w); Expr* r = mkExtract(a, 0, 8); for (unsigned b = 8; b < w; b += 8) r = mkConcat(r, mkExtract(a, b, 8)); return r; }); return;
    case Intrinsic::fshl: case Intrinsic::fshr: perLane([&](int j) {
      Expr *a = E(0, j, w), *b = E(1, j, w), *c = mkBin(O_UREM, E(2, j, w), mkConst(w, w)); Expr* inv = mkBin(O_SUB, mkConst(w, w), c); Expr* z = mkEq(c, mkConst(0, w));
      if (q.intr == Intrinsic::fshl) return mkIte(z, a, mkBin(O_OR, mkBin(O_SHL, a, c), mkBin(O_LSHR, b, inv)));
      return mkIte(z, b, mkBin(O_OR, mkBin(O_SHL, a, inv), mkBin(O_LSHR, b, c))); }); return;
    case Intrinsic::ubsantrap: { u64 k = A(0).lo; throw Viol{"ub", std::string("undefined behaviour: ") + trapName(k)}; }
    case Intrinsic::trap: case Intrinsic::debugtrap: throw Viol{"ub", "undefined behaviour: trap"};
    case Intrinsic::eh_typeid_for: { Val v = A(0); complete1(s, cv((u32)v.lo)); return; }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::annotation: case Intrinsic::ptr_annotation: { std::vector<Val> r; for (int j = 0; j < q.n; j++) r.push_back(A(0, j)); complete(s, r); return; }
    case Intrinsic::invariant_start: complete1(s, cv(0)); return;
    case Intrinsic::is_constant: complete1(s, cv(0)); return;
    case Intrinsic::objectsize: complete1(s, cv(m64(q.width))); return;
    case Intrinsic::stacksave: complete1(s, cv(0)); return;
    case Intrinsic::fabs: perLane([&](int j) { return fabsE(E(0, j, w)); }); return;
    case Intrinsic::copysign: perLane([&](int j) { Expr *a = E(0, j, w), *b = E(1, j, w); return mkBin(O_OR, fabsE(a), mkBin(O_AND, b, mkConst((u128)1 << (w - 1), w))); }); return;
    case Intrinsic::is_fpclass: {
      unsigned k = fkind(q.argTy[0]);       Expr* a = E(0, 0, w); u64 mask = A(1).lo; unsigned mant = k == 0 ? 23 : k == 1 ? 52 : 64; unsigned ew = w - 1 - mant;
      Expr* ex = mkExtract(a, mant, ew); Expr* fr = mkExtract(a, 0, mant); Expr* sg = mkExtract(a, w - 1, 1);
      Expr* emax = mkEq(ex, mkConst(maskW(ew), ew)), *e0 = mkEq(ex, mkConst(0, ew)), *f0 = k == 2 ? mkEq(mkExtract(fr, 0, 63), mkConst(0, 63)) : mkEq(fr, mkConst(0, mant)), *q1 = mkExtract(fr, mant - (k == 2 ? 2 : 1), 1);
      Expr* r = mkConst(0, 1); Expr* pos = mkNot(sg);
      auto add = [&](unsigned bit, Expr* c) { if (mask & bit) r = mkOr(r, c); };
      Expr* nan = mkAnd(emax, mkNot(f0)); add(1, mkAnd(nan, mkNot(q1))); add(2, mkAnd(nan, q1));
      Expr* inf = mkAnd(emax, f0); add(4, mkAnd(inf, sg)); add(512, mkAnd(inf, pos));
      Expr* nor = mkAnd(mkNot(emax), mkNot(e0)); add(8, mkAnd(nor, sg)); add(256, mkAnd(nor, pos));
      Expr* sub = mkAnd(e0, mkNot(f0)); add(16, mkAnd(sub, sg)); add(128, mkAnd(sub, pos));
      Expr* zr = mkAnd(e0, f0); add(32, mkAnd(zr, sg)); add(64, mkAnd(zr, pos));
      complete1(s, fromE(r)); return; }
    case Intrinsic::vastart: {
      Val p = A(0); Frame& f = s.top(); u64 total = 0; std::vector<u64> offs;
      for (auto* t : f.vaTy) { if (t->isX86_FP80Ty()) { total = (total + 15) / 16 * 16; offs.push_back(total); total += 16; } else { offs.push_back(total); total += 8; } }
      u64 area = allocObj(s, std::max<u64>(total, 8), OK_STACK, true); s.top().allocas.push_back(area);
      Frame& f2 = s.top();
      for (size_t i = 0; i < offs.size(); i++) { unsigned wd = scalarWidth(f2.vaTy[i]); storeBytes(s, area + offs[i], (wd + 7) / 8, wd, f2.va[i]); }
      storeBytes(s, p.lo, 4, 32, cv(48)); storeBytes(s, p.lo + 4, 4, 32, cv(176)); storeBytes(s, p.lo + 8, 8, 64, cv(area)); storeBytes(s, p.lo + 16, 8, 64, cv(0));
      complete0(s); return; }
    case Intrinsic::vacopy: { Val d = A(0), x = A(1); copyBytes(s, d.lo, x.lo, 24, true); complete0(s); return; }
    default: throw EngineStop{internStr("intrinsic " + Intrinsic::getBaseName((Intrinsic::ID)q.intr).str())};
  }
}

// ---- merging after a call
static bool objEq(const Obj* a, const Obj* b) {
  if (a == b) return true;
  if (a->base != b->base || a->size != b->size || a->kind != b->kind || a->dead != b->dead || a->nonconc != b->nonconc) return false;
  if (!a->nonconc) return a->b == b->b;
  for (u32 i = 0; i < a->size; i++) { u8 x = a->m[i], y = b->m[i]; if (x != y) return false; if (!x) { if (a->b[i] != b->b[i]) return false; } else if (x == 1 && a->s[i] != b->s[i]) return false; }
  return true;
}
static bool frameEq(const Frame* a, const Frame* b) {
  if (a == b) return true;
  if (a->f != b->f || a->pc != b->pc || a->allocas != b->allocas || a->r.size() != b->r.size()) return false;
  for (size_t i = 0; i < a->r.size(); i++) if (!sameVal(a->r[i], b->r[i])) return false;
  return true;
}
static bool mergeable(State& a, State& b) {
  if (a.mem.size() != b.mem.size() || a.stack.size() != b.stack.size() || a.in != b.in || a.cursor != b.cursor || a.turn != b.turn || a.obs != b.obs || a.asserts != b.asserts || a.uf != b.uf || a.nextVar != b.nextVar || a.caught != b.caught || a.excs.size() != b.excs.size()) return false;
  for (size_t i = 0; i < a.stack.size(); i++) if (!frameEq(a.stack[i].p, b.stack[i].p)) return false;
  for (size_t i = 0; i < a.mem.size(); i++) if (!objEq(a.mem[i].p, b.mem[i].p)) return false;
  return true;
}
struct RetState { State* s; std::vector<Val> ret; };
static Step run(State*& s, size_t stopDepth, WL& wl, std::vector<Val>* ret);
static bool exprTooBig(Expr* e) { return e->sup->v.size() > 12; }

// s has just pushed the callee's frame; explores it and merges returning states.
static Step callMerged(State*& s, WL& wl, KFunction* callee) {
  size_t depth = s->stack.size() - 1;
  PCNode* basePC = s->pc; std::vector<DomEnt> baseDoms = s->doms; auto basePinned = s->pinned; u32 baseVar = s->nextVar;
  std::vector<RetState> rets; WL local{s}; bool complete_ = true; int n = 0;
  std::vector<State*> out; // states that continue un-nested
  s = nullptr;
  while (!local.empty()) {
    if (++n > 48) { complete_ = false; for (auto* x : local) out.push_back(x); local.clear(); break; }
    State* c = local.back(); local.pop_back(); bool esc0 = c->escaped; c->escaped = false;
    std::vector<Val> rv; 
    Step st;
    try { st = run(c, depth, local, &rv); } catch (EngineStop&) { for (auto* x : local) wl.push_back(x); for (auto* x : out) wl.push_back(x); for (auto& r : rets) { complete(*r.s, r.ret); wl.push_back(r.s); } throw; }
    if (st == ST_DEAD || !c) { complete_ = false; continue; }
    if (c->escaped) complete_ = false; // assumption added
    c->escaped |= esc0;
    if (st == ST_RET) rets.push_back({c, rv}); else { complete_ = false; out.push_back(c); }
    if (gTimeUp) break;
  }
  for (auto* x : local) out.push_back(x);
  if (!local.empty()) complete_ = false;
  // group
  std::vector<std::vector<RetState>> groups;
  for (auto& r : rets) {
    bool put = false;
    if (r.s->nextVar == baseVar) for (auto& g : groups) {
      if (g[0].s->nextVar != baseVar || g[0].ret.size() != r.ret.size() || !mergeable(*g[0].s, *r.s)) continue;
      g.push_back(r); put = true; break;
    }
    if (!put) groups.push_back({r});
  }
  for (auto& g : groups) {
    State* b = g[0].s;
    if (g.size() > 1) {
      std::vector<Expr*> suf;
      for (auto& r : g) { Expr* c = mkConst(1, 1); for (PCNode* p = r.s->pc; p && p != basePC; p = p->prev) c = mkAnd(p->c, c); suf.push_back(c); }
      std::vector<Val> rv = g[0].ret; bool tooBig = false;
      for (size_t k = 0; k < rv.size(); k++) {
        bool same = true; for (auto& r : g) if (!sameVal(r.ret[k], rv[k])) same = false;
        if (same) continue;
        unsigned w = callee->retW[k]; Expr* e = toE(g.back().ret[k], w);
        for (size_t i = g.size() - 1; i-- > 0;) e = mkIte(suf[i], toE(g[i].ret[k], w), e);
        rv[k] = fromE(e); if (w > 64) rv[k].e = e;
      }
      if (!tooBig) {
        gS.merges += g.size() - 1;
        Expr* any = mkConst(0, 1); for (Expr* c : suf) any = mkOr(any, c);
        b->pc = basePC; b->doms = baseDoms; b->pinned = basePinned;
        if (!(complete_ && groups.size() == 1)) addConstraint(*b, any);
        for (size_t i = 1; i < g.size(); i++) {
          State* o = g[i].s; b->steps = std::max(b->steps, o->steps); b->nextHeap = std::max(b->nextHeap, o->nextHeap); b->nextStack = std::max(b->nextStack, o->nextStack); b->enums = std::max(b->enums, o->enums);
          for (auto l : o->reached) { bool f = false; for (auto x : b->reached) if (x == l) f = true; if (!f) b->reached.push_back(l); }
          delete o;
        }
        complete(*b, rv); out.push_back(b); continue;
      }
    }
    for (auto& r : g) { complete(*r.s, r.ret); out.push_back(r.s); }
  }
  if (out.empty()) return ST_DEAD;
  s = out.back(); out.pop_back();
  for (auto* x : out) wl.push_back(x);
  return ST_CONT;
}

// load through a symbolic address that depends on one input byte
static bool tableLoad(State& s, Expr* a, KInst& q, Val* out) {
  if (q.widths.size() != 1 || q.widths[0] > 64 || a->sup->v.size() != 1 || gVars[a->sup->v[0]].width != 8) return false;
  u32 var = a->sup->v[0]; Table full; memset(&full, 0xff, sizeof full); DomEnt* d = findDom(s, var); Table t = d ? d->t : full;
  unsigned nb = (q.widths[0] + 7) / 8; std::map<u64, std::vector<int>> by; 
  for (int i = 0; i < 256; i++) if (t.get(i)) {
    u64 ad = (u64)evalByte(a, i); int idx; Obj* o = findObj(s, ad, &idx);
    if (!o || o->dead || ad - o->base + nb > o->size) return false;
    u64 v = 0; for (unsigned b = 0; b < nb; b++) { if (o->nonconc && o->m[ad - o->base + b]) return false; v |= (u64)o->b[ad - o->base + b] << (8 * b); }
    by[v & m64(q.widths[0])].push_back(i);
  }
  if (by.empty()) return false;
  u64 def = 0; size_t best = 0; for (auto& p : by) if (p.second.size() > best) { best = p.second.size(); def = p.first; }
  Expr* r = mkConst(def, q.widths[0]); Expr* x = gVars[var].e;
  for (auto& p : by) if (p.first != def) { Expr* c = mkConst(0, 1); for (int i : p.second) c = mkOr(c, mkEq(x, mkConst(i, 8))); r = mkIte(c, mkConst(p.first, q.widths[0]), r); }
  *out = fromE(r); return true;
}

static u64 gTick = 0;
static Step step(State*& sp, size_t stopDepth, WL& wl, std::vector<Val>* ret) {
  State& s = *sp; Frame* fp = s.stack.back().uniq(); Frame& f = *fp; KInst& q = f.f->insts[f.pc]; q.hit = true;
  switch (q.op) {
    case K_BIN: {
      for (int j = 0; j < q.n; j++) {
        const Val &a = rd(f, opAt(q.ops[0], j)), &b = rd(f, opAt(q.ops[1], j)); Val r;
        if (!a.e && !b.e && q.width <= 64) {
          u64 m = m64(q.width);
          switch (q.sub) {
            case O_ADD: r.lo = (a.lo + b.lo) & m; break; case O_SUB: r.lo = (a.lo - b.lo) & m; break; case O_MUL: r.lo = (a.lo * b.lo) & m; break;
            case O_AND: r.lo = a.lo & b.lo; break; case O_OR: r.lo = a.lo | b.lo; break; case O_XOR: r.lo = a.lo ^ b.lo; break;
            case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: if (!(b.lo & m)) throw Viol{"ub", "division by zero"}; r.lo = (u64)foldBin((Op)q.sub, a.lo, b.lo, q.width); break;
            default: r.lo = (u64)foldBin((Op)q.sub, a.lo, b.lo, q.width) & m;
          }
        } else {
          Expr *x = toE(a, q.width), *y = toE(b, q.width);
          if (q.sub == O_UDIV || q.sub == O_SDIV || q.sub == O_UREM || q.sub == O_SREM) {
            Expr* z = mkEq(y, mkConst(0, q.width));
            if (!z->isConst() || z->c) { State* other = nullptr; int t = branch(s, z, &other); if (t) { if (t == 2) wl.push_back(other); throw Viol{"ub", "division by zero"}; } }
          }
          Expr* e = mkBin((Op)q.sub, x, y); r = fromE(e); if (q.width > 64) { r.e = e; r.lo = 0; }
        }
        s.stack.back().uniq()->r[q.dst + j] = r;
      }
      s.top().pc++; return ST_CONT; }
    case K_ICMP: {
      for (int j = 0; j < q.n; j++) {
        const Val &a = rd(f, opAt(q.ops[0], j)), &b = rd(f, opAt(q.ops[1], j)); Val r; using P = llvm::CmpInst;
        if (!a.e && !b.e) {
          u64 x = a.lo, y = b.lo; i64 sx = (i64)sextW(x, q.width), sy = (i64)sextW(y, q.width); bool t = false;
          switch (q.sub) { case P::ICMP_EQ: t = x == y; break; case P::ICMP_NE: t = x != y; break; case P::ICMP_UGT: t = x > y; break; case P::ICMP_UGE: t = x >= y; break; case P::ICMP_ULT: t = x < y; break; case P::ICMP_ULE: t = x <= y; break; case P::ICMP_SGT: t = sx > sy; break; case P::ICMP_SGE: t = sx >= sy; break; case P::ICMP_SLT: t = sx < sy; break; case P::ICMP_SLE: t = sx <= sy; break; }
          r.lo = t;
        } else {
          Expr *x = toE(a, q.width), *y = toE(b, q.width), *e = nullptr;
          switch (q.sub) { case P::ICMP_EQ: e = mkEq(x, y); break; case P::ICMP_NE: e = mkNot(mkEq(x, y)); break; case P::ICMP_UGT: e = mkBin(O_ULT, y, x); break; case P::ICMP_UGE: e = mkBin(O_ULE, y, x); break; case P::ICMP_ULT: e = mkBin(O_ULT, x, y); break; case P::ICMP_ULE: e = mkBin(O_ULE, x, y); break; case P::ICMP_SGT: e = mkBin(O_SLT, y, x); break; case P::ICMP_SGE: e = mkBin(O_SLE, y, x); break; case P::ICMP_SLT: e = mkBin(O_SLT, x, y); break; case P::ICMP_SLE: e = mkBin(O_SLE, x, y); break; }
          if (!e->isConst() && isByteCond(e)) e = simpByte(s, e);
          r = fromE(e);
        }
        f.r[q.dst + j] = r;
      }
      f.pc++; return ST_CONT; }
    case K_FCMP: for (int j = 0; j < q.n; j++) { Expr *x = toE(rd(f, opAt(q.ops[0], j)), q.width), *y = toE(rd(f, opAt(q.ops[1], j)), q.width); f.r[q.dst + j] = fromE(mkFcmp(q.sub, q.width2, x, y)); } f.pc++; return ST_CONT;
    case K_FBIN: for (int j = 0; j < q.n; j++) { Expr *x = toE(rd(f, opAt(q.ops[0], j)), q.width), *y = toE(rd(f, opAt(q.ops[1], j)), q.width); Expr* e = mkFbin((Op)q.sub, q.width2, x, y); Val r = fromE(e); if (q.width > 64) { r.e = e; r.lo = 0; } f.r[q.dst + j] = r; } f.pc++; return ST_CONT;
    case K_FNEG: for (int j = 0; j < q.n; j++) { Expr* x = toE(rd(f, opAt(q.ops[0], j)), q.width); Expr* e = mkBin(O_XOR, x, mkConst((u128)1 << (q.width - 1), q.width)); Val r = fromE(e); if (q.width > 64) { r.e = e; r.lo = 0; } f.r[q.dst + j] = r; } f.pc++; return ST_CONT;
    case K_FPCAST: { unsigned wi = fwidth(q.width2); Expr* e = mkFcast(q.width2, q.width, toE(rd(f, q.ops[0]), wi)); Val r = fromE(e); if (e->width > 64) { r.e = e; r.lo = 0; } f.r[q.dst] = r; f.pc++; return ST_CONT; }
    case K_I2F: { Expr* e = mkI2F((Op)q.sub, q.width, toE(rd(f, q.ops[0]), q.width2)); Val r = fromE(e); if (e->width > 64) { r.e = e; r.lo = 0; } f.r[q.dst] = r; f.pc++; return ST_CONT; }
    case K_F2I: { Expr* e = mkF2I((Op)q.sub, q.width2, q.width, toE(rd(f, q.ops[0]), fwidth(q.width2))); f.r[q.dst] = fromE(e); f.pc++; return ST_CONT; }
    case K_CAST: {
      for (int j = 0; j < q.n; j++) {
        const Val& a = rd(f, opAt(q.ops[0], j)); Val r;
        if (!a.e && q.width <= 64) { if (q.sub) r.lo = (u64)sextW(a.lo, q.width2) & m64(q.width); else r.lo = a.lo & m64(q.width); }
        else { Expr* x = toE(a, q.width2); Expr* e = q.width < q.width2 ? mkExtract(x, 0, q.width) : q.width == q.width2 ? x : q.sub ? mkSext(x, q.width) : mkZext(x, q.width); r = fromE(e); if (q.width > 64) { r.e = e; r.lo = 0; } }
        f.r[q.dst + j] = r;
      }
      f.pc++; return ST_CONT; }
    case K_COPY: for (int j = 0; j < q.n; j++) { Val v = rd(f, opAt(q.ops[0], j)); f.r[q.dst + j] = v; } f.pc++; return ST_CONT;
    case K_FREEZE: for (int j = 0; j < q.n; j++) { Val v = rd(f, opAt(q.ops[0], j)); if (v.e && v.e->sup->uninit && v.e->op == O_VAR) { if (q.widths[j] > 64) v.e = mkConst(0, q.widths[j]); else v = cv(0); } f.r[q.dst + j] = v; } f.pc++; return ST_CONT;
    case K_SELECT: {
      for (int j = 0; j < q.n; j++) {
        const Val& c = rd(f, opAt(q.ops[0], q.sub ? j : 0)); const Val &a = rd(f, opAt(q.ops[1], j)), &b = rd(f, opAt(q.ops[2], j)); Val r;
        if (!c.e) r = (c.lo & 1) ? a : b;
        else if (sameVal(a, b)) r = a;
        else if (Expr* ce = simp(s, c.e); ce->isConst()) r = ce->c ? a : b;
        else { Expr* e = mkIte(ce, toE(a, q.widths[j]), toE(b, q.widths[j])); r = fromE(e); if (e->width > 64) { r.e = e; r.lo = 0; } }
        f.r[q.dst + j] = r;
      }
      f.pc++; return ST_CONT; }
    case K_BR: jump(f, q.edges[0]); return ST_CONT;
    case K_CBR: {
      const Val& c = rd(f, q.ops[0]);
      if (!c.e) { jump(f, q.edges[(c.lo & 1) ? 0 : 1]); return ST_CONT; }
      checkUninit(s, c.e, "conditional jump"); Expr* ce = simp(s, c.e); int budget = 100;
      if (!ce->isConst() && !isByteCond(ce) && gLeafSplit) if (Expr* l = leafOf(s, ce, budget)) { // both sides come back to this instruction
        State* other = nullptr; int r = branch(s, l, &other); if (r == 2) { wl.push_back(other); return ST_CONT; } }
      State* other = nullptr; int r = branch(s, ce, &other);
      if (r == 2) { jump(other->top(), q.edges[1]); wl.push_back(other); }
      jump(s.top(), q.edges[r ? 0 : 1]); return ST_CONT; }
    case K_SWITCH: {
      const Val& v = rd(f, q.ops[0]);
      if (!v.e) { for (auto& c : q.cases) if (c.first == v.lo) { jump(f, q.edges[c.second]); return ST_CONT; } jump(f, q.edges[0]); return ST_CONT; }
      Expr* e = v.e; checkUninit(s, e, "switch");
      for (int t = 1; t < (int)q.edges.size(); t++) {
        Expr* c = mkConst(0, 1); for (auto& k : q.cases) if (k.second == t) c = mkOr(c, mkEq(e, mkConst(k.first, q.width)));
        State* other = nullptr; int r = branch(s, c, &other);
        if (r == 2) wl.push_back(other);
        if (r) { jump(s.top(), q.edges[t]); return ST_CONT; }
      }
      jump(s.top(), q.edges[0]); return ST_CONT; }
    case K_RET: {
      std::vector<Val> rv; for (int j = 0; j < q.n; j++) rv.push_back(rd(f, opAt(q.ops[0], j)));
      popFrame(s);
      if (s.stack.size() == stopDepth) { if (ret) *ret = rv; return ST_RET; }
      complete(s, rv); return ST_CONT; }
    case K_UNREACHABLE: throw Viol{"ub", "reached code the compiler proved unreachable (undefined behaviour or a call that must not return)"};
    case K_LOAD: {
      Val a = rd(f, q.ops[0]);
      if (a.e && q.dst >= 0) { Val o; if (tableLoad(s, a.e, q, &o)) { s.top().r[q.dst] = o; s.top().pc++; return ST_CONT; } }
      u64 ad = resolveAddr(s, a, (unsigned)q.asize, wl, false);
      for (size_t j = 0; j < q.widths.size(); j++) { Val v = loadBytes(s, ad + q.offs[j], (q.widths[j] + 7) / 8, q.widths[j]); s.top().r[q.dst + j] = v; }
      s.top().pc++; return ST_CONT; }
    case K_STORE: {
      Val a = rd(f, q.ops[0]); u64 ad = resolveAddr(s, a, (unsigned)q.asize, wl, true);
      Frame& g = *s.stack.back();
      for (size_t j = 0; j < q.widths.size(); j++) {
        const Val& v = rd(g, opAt(q.ops[1], j));
        if (v.e && v.e->op == O_VAR && v.e->sup->uninit && (u32)gVars[(u32)v.e->c].name.compare("undef") == 0) { // store of undef: leave as uninitialised
          int idx; access(s, ad + q.offs[j], (q.widths[j] + 7) / 8, true, &idx, "write"); Obj* o = writable(s, idx); for (unsigned b = 0; b < (q.widths[j] + 7) / 8; b++) o->setU(u32(ad + q.offs[j] - o->base) + b); continue;
        }
        storeBytes(s, ad + q.offs[j], (q.widths[j] + 7) / 8, q.widths[j], v);
      }
      s.top().pc++; return ST_CONT; }
    case K_ALLOCA: {
      Val n = rd(f, q.ops[0]); u64 c = concretize(s, n, q.width, wl); u64 sz = q.asize * c; if (sz > (8u << 20)) throw Viol{"allocation", "huge stack allocation"};
      u64 p = allocObj(s, sz, OK_STACK, true, q.align); Frame& g = s.top(); g.allocas.push_back(p); g.r[q.dst] = cv(p); g.pc++; return ST_CONT; }
    case K_GEP: {
      const Val& b = rd(f, q.ops[0]); bool conc = !b.e; for (auto& t : q.gep) if (rd(f, t.slot).e) conc = false;
      if (conc) { u64 r = b.lo + (u64)q.cofs; for (auto& t : q.gep) r += (u64)((i64)sextW(rd(f, t.slot).lo, t.width) * t.scale); f.r[q.dst] = cv(r); }
      else {
        Expr* e = toE(b, 64); Expr* off = mkConst((u128)(u64)q.cofs, 64);
        for (auto& t : q.gep) { Expr* x = toE(rd(f, t.slot), t.width); x = t.width < 64 ? mkSext(x, 64) : t.width > 64 ? mkExtract(x, 0, 64) : x; off = mkBin(O_ADD, off, mkBin(O_MUL, x, mkConst((u128)(u64)t.scale, 64))); }
        f.r[q.dst] = fromE(mkBin(O_ADD, e, off));
      }
      f.pc++; return ST_CONT; }
    case K_CALL: {
      if (q.intr) { doIntrinsic(sp, q, wl); return ST_CONT; }
      KFunction* k = q.callee;
      if (!k) {
        Val t = rd(f, q.ops[0]); u64 ad = concretize(s, t, 64, wl); auto it = gFuncByAddr.find(ad);
        if (it == gFuncByAddr.end()) throw Viol{"memory", ad ? "call through an invalid function pointer" : "call through a null function pointer"};
        k = it->second;
      }
      if (k->native < 0) k->native = k->f->isDeclaration() ? nativeId(k->name) : ((k->name.compare(0, 4, "sym_") == 0 || k->name == "__cxa_end_catch") ? nativeId(k->name) : 0);
      if (k->native) return doNative(sp, q, k->native, wl);
      if (k->f->isDeclaration()) throw EngineStop{internStr("undefined function " + k->name)};
      decodeFunction(k);
      std::vector<Val> args; Frame& g = *s.stack.back();
      size_t nf = k->argSlot.size();
      if (q.argSlots.size() < nf) throw EngineStop{"call-arity"};
      for (size_t i = 0; i < nf; i++) { if (q.argN[i] != k->argN[i]) throw EngineStop{"call-type"}; for (int j = 0; j < q.argN[i]; j++) args.push_back(rd(g, opAt(q.argSlots[i], j))); }
      for (size_t i = 0; i < nf; i++) if (k->argByval[i]) { Val v = args[i]; int off = 0; for (size_t z = 0; z < i; z++) off += q.argN[z]; v = args[off]; if (v.e) { concretize(s, v, 64, wl); args[off] = v; } }
      if (k->f->isVarArg()) {
        std::vector<Val> va; std::vector<LType*> ty; for (size_t i = nf; i < q.argSlots.size(); i++) { va.push_back(rd(*s.stack.back(), q.argSlots[i])); ty.push_back(q.argTy[i]); }
        pushFrame(s, k, args, nf, &va, &ty);
      } else pushFrame(s, k, args, nf, nullptr, nullptr);
      if (k->merge && !gNoMerge) { // only worth it when something symbolic can reach the callee
        return callMerged(sp, wl, k);
      }
      return ST_CONT; }
    case K_LANDINGPAD: throw EngineStop{"landingpad"};
    case K_RESUME: { u64 p = rd(f, q.ops[0]).lo; popFrame(s); 
      // continue the search in the caller, whose current instruction is the call
      unwind(s, p); return ST_CONT; }
    case K_INSERT: { int tot = q.n; for (int j = 0; j < tot; j++) { Val v = (j >= q.cofs && j < q.cofs + (i64)q.asize) ? rd(f, opAt(q.ops[1], j - (int)q.cofs)) : rd(f, opAt(q.ops[0], j)); f.r[q.dst + j] = v; } f.pc++; return ST_CONT; }
    case K_EXTRACT: for (int j = 0; j < q.n; j++) { Val v = rd(f, opAt(q.ops[0], (int)q.cofs + j)); f.r[q.dst + j] = v; } f.pc++; return ST_CONT;
    case K_INSELT: { Val ix = rd(f, q.ops[2]); if (ix.e) throw EngineStop{"vector-index"}; for (int j = 0; j < q.n; j++) { Val v = j == (int)ix.lo ? rd(f, q.ops[1]) : rd(f, opAt(q.ops[0], j)); f.r[q.dst + j] = v; } f.pc++; return ST_CONT; }
    case K_EXTELT: { Val ix = rd(f, q.ops[1]); if (ix.e || ix.lo >= q.asize) throw EngineStop{"vector-index"}; Val v = rd(f, opAt(q.ops[0], (int)ix.lo)); f.r[q.dst] = v; f.pc++; return ST_CONT; }
    case K_SHUF: { std::vector<Val> r; for (int m : q.shuf) { if (m < 0) r.push_back(undefVal(q.width)); else if (m < (int)q.asize) r.push_back(rd(f, opAt(q.ops[0], m))); else r.push_back(rd(f, opAt(q.ops[1], m - (int)q.asize))); } for (size_t j = 0; j < r.size(); j++) f.r[q.dst + j] = r[j]; f.pc++; return ST_CONT; }
    case K_NOP: if (q.invoke) jump(f, q.edges[0]); else f.pc++; return ST_CONT;
    default: { std::string t; llvm::raw_string_ostream os(t); q.inst->print(os); throw EngineStop{internStr("unsupported instruction " + os.str().substr(0, 120))}; }
  }
}
static Step run(State*& s, size_t stopDepth, WL& wl, std::vector<Val>* ret) {
  for (;;) {
    if (s->stack.size() <= stopDepth) return ST_CONT; // unwound past the nested call
    s->steps++;
    if ((++gTick & 0xfff) == 0) { if (nowS() > gDeadline || gSh->stop) gTimeUp = true; if (gExprCount > gMaxExpr) throw EngineStop{"expression-limit"}; }
    if (gTimeUp) return ST_CONT;
    try {
      if (s->steps > gMaxSteps) throw Viol{"hang", "more than " + std::to_string(gMaxSteps) + " steps on one path (does not terminate within the bound)"};
      Step st = step(s, stopDepth, wl, ret);
      if (st == ST_RET) return ST_RET;
      if (st == ST_DEAD || !s) { if (s) { gS.infeasible++; delete s; s = nullptr; } return ST_DEAD; }
    } catch (Viol& v) {
      violation(*s, v.kind, v.msg); delete s; s = nullptr; return ST_DEAD;
    } catch (EngineStop& e) { if (s) { delete s; s = nullptr; } throw; }
  }
}
