// ---- decoding LLVM IR into the executor's form
static bool isFP(LType* t) { return t->isFloatTy() || t->isDoubleTy() || t->isX86_FP80Ty(); }
static unsigned fkind(LType* t) { return t->isFloatTy() ? 0 : t->isDoubleTy() ? 1 : 2; }
static unsigned scalarWidth(LType* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) return 80;
  std::string s; llvm::raw_string_ostream os(s); t->print(os);
  die("unsupported scalar type " + os.str());
}
static void flatten(LType* t, std::vector<unsigned>& w, std::vector<u32>* offs, u32 base) {
  if (auto* st = dyn_cast<llvm::StructType>(t)) {
    const llvm::StructLayout* sl = gDL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) flatten(st->getElementType(i), w, offs, base + (u32)sl->getElementOffset(i));
  } else if (auto* at = dyn_cast<llvm::ArrayType>(t)) {
    u64 sz = gDL->getTypeAllocSize(at->getElementType());
    for (u64 i = 0; i < at->getNumElements(); i++) flatten(at->getElementType(), w, offs, base + u32(i * sz));
  } else if (auto* vt = dyn_cast<llvm::FixedVectorType>(t)) {
    u64 sz = gDL->getTypeStoreSize(vt->getElementType());
    for (u64 i = 0; i < vt->getNumElements(); i++) flatten(vt->getElementType(), w, offs, base + u32(i * sz));
  } else if (t->isVoidTy() || t->isMetadataTy() || t->isTokenTy()) {
  } else { w.push_back(scalarWidth(t)); if (offs) offs->push_back(base); }
}
static std::unordered_map<LType*, int> gNSlots;
static int nslotsOf(LType* t) {
  if (t->isIntegerTy() || t->isPointerTy()) return 1;
  auto it = gNSlots.find(t); if (it != gNSlots.end()) return it->second;
  std::vector<unsigned> w; flatten(t, w, nullptr, 0); return gNSlots[t] = (int)w.size();
}
static int aggIndex(LType* t, llvm::ArrayRef<unsigned> idx, LType** out) {
  int r = 0;
  for (unsigned i : idx) {
    if (auto* st = dyn_cast<llvm::StructType>(t)) { for (unsigned j = 0; j < i; j++) r += nslotsOf(st->getElementType(j)); t = st->getElementType(i); }
    else { auto* at = cast<llvm::ArrayType>(t); r += nslotsOf(at->getElementType()) * i; t = at->getElementType(); }
  }
  *out = t; return r;
}
static KFunction* getFunc(const LFunction* f) {
  auto it = gFuncs.find(f); if (it != gFuncs.end()) return it->second;
  die("unknown function " + f->getName().str());
}
static u64 globAddr(const llvm::GlobalValue* g) {
  if (auto* a = dyn_cast<llvm::GlobalAlias>(g)) return globAddr(cast<llvm::GlobalValue>(a->getAliaseeObject()));
  auto it = gGlobAddr.find(g); if (it == gGlobAddr.end()) die("no address for " + g->getName().str());
  return it->second;
}
static Val undefVal(unsigned w) { Val v; v.e = mkVar(0x7fff0000u + w, w, true, "undef"); return v; }

static void constVals(const llvm::Constant* c, std::vector<Val>& out);
static u64 constInt(const llvm::Constant* c) { std::vector<Val> v; constVals(c, v); if (v.size() != 1) die("constant"); if (v[0].e) { if (v[0].e->isConst()) return (u64)v[0].e->c; return 0; } return v[0].lo; }
static void constVals(const llvm::Constant* c, std::vector<Val>& out) {
  LType* t = c->getType();
  if (auto* ci = dyn_cast<llvm::ConstantInt>(c)) {
    unsigned w = ci->getBitWidth();
    if (w <= 64) out.push_back(cv(ci->getZExtValue()));
    else { u128 v = ci->getValue().getRawData()[0]; if (ci->getValue().getNumWords() > 1) v |= (u128)ci->getValue().getRawData()[1] << 64; Val x; x.e = mkConst(v, w); out.push_back(x); }
    return;
  }
  if (auto* cf = dyn_cast<llvm::ConstantFP>(c)) {
    llvm::APInt a = cf->getValueAPF().bitcastToAPInt();
    if (a.getBitWidth() <= 64) out.push_back(cv(a.getZExtValue()));
    else { u128 v = a.getRawData()[0] | ((u128)a.getRawData()[1] << 64); Val x; x.e = mkConst(v, a.getBitWidth()); out.push_back(x); }
    return;
  }
  if (isa<llvm::ConstantPointerNull>(c)) { out.push_back(cv(0)); return; }
  if (isa<llvm::ConstantAggregateZero>(c)) { std::vector<unsigned> w; flatten(t, w, nullptr, 0); for (unsigned x : w) { Val v; if (x > 64) v.e = mkConst(0, x); out.push_back(v); } return; }
  if (isa<llvm::UndefValue>(c)) { std::vector<unsigned> w; flatten(t, w, nullptr, 0); for (unsigned x : w) out.push_back(undefVal(x)); return; }
  if (auto* g = dyn_cast<llvm::GlobalValue>(c)) { out.push_back(cv(globAddr(g))); return; }
  if (auto* ca = dyn_cast<llvm::ConstantAggregate>(c)) { for (auto& o : ca->operands()) constVals(cast<llvm::Constant>(o.get()), out); return; }
  if (auto* cd = dyn_cast<llvm::ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constVals(cd->getElementAsConstant(i), out); return; }
  if (auto* ce = dyn_cast<llvm::ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        auto* g = cast<llvm::GEPOperator>(ce); llvm::APInt off(64, 0);
        if (!g->accumulateConstantOffset(*gDL, off)) die("constant gep");
        out.push_back(cv(constInt(cast<llvm::Constant>(g->getPointerOperand())) + (u64)off.getSExtValue())); return; }
      case Instruction::PtrToInt: out.push_back(cv(constInt(ce->getOperand(0)) & m64(t->getIntegerBitWidth()))); return;
      case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: out.push_back(cv(constInt(ce->getOperand(0)))); return;
      case Instruction::Trunc: out.push_back(cv(constInt(ce->getOperand(0)) & m64(t->getIntegerBitWidth()))); return;
      case Instruction::Add: out.push_back(cv((constInt(ce->getOperand(0)) + constInt(ce->getOperand(1))) & m64(t->getIntegerBitWidth()))); return;
      case Instruction::Sub: out.push_back(cv((constInt(ce->getOperand(0)) - constInt(ce->getOperand(1))) & m64(t->getIntegerBitWidth()))); return;
      case Instruction::Xor: out.push_back(cv((constInt(ce->getOperand(0)) ^ constInt(ce->getOperand(1))) & m64(t->getIntegerBitWidth()))); return;
      case Instruction::ICmp: {
        u64 a = constInt(ce->getOperand(0)), b = constInt(ce->getOperand(1)); bool r;
        switch (ce->getPredicate()) { case llvm::CmpInst::ICMP_EQ: r = a == b; break; case llvm::CmpInst::ICMP_NE: r = a != b; break; case llvm::CmpInst::ICMP_ULT: r = a < b; break; case llvm::CmpInst::ICMP_UGT: r = a > b; break; default: die("constant icmp"); }
        out.push_back(cv(r)); return; }
      default: break;
    }
  }
  std::string s; llvm::raw_string_ostream os(s); c->print(os); die("unsupported constant " + os.str().substr(0, 300));
}

// stores an initialiser into raw bytes
static void initBytes(const llvm::Constant* c, Obj* o, u32 off) {
  if (isa<llvm::ConstantAggregateZero>(c)) return;
  LType* t = c->getType();
  if (auto* st = dyn_cast<llvm::StructType>(t)) { if (isa<llvm::UndefValue>(c)) return; auto* sl = gDL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initBytes(c->getAggregateElement(i), o, off + (u32)sl->getElementOffset(i)); return; }
  if (auto* at = dyn_cast<llvm::ArrayType>(t)) { if (isa<llvm::UndefValue>(c)) return; u64 sz = gDL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) initBytes(c->getAggregateElement((unsigned)i), o, off + u32(i * sz)); return; }
  if (auto* vt = dyn_cast<llvm::FixedVectorType>(t)) { u64 sz = gDL->getTypeStoreSize(vt->getElementType()); for (u64 i = 0; i < vt->getNumElements(); i++) initBytes(c->getAggregateElement((unsigned)i), o, off + u32(i * sz)); return; }
  if (isa<llvm::UndefValue>(c)) return;
  std::vector<Val> v; constVals(c, v);
  unsigned n = (unsigned)gDL->getTypeStoreSize(t);
  if (v[0].e) { u128 x = v[0].e->c; memcpy(&o->b[off], &x, std::min(n, 16u)); } else memcpy(&o->b[off], &v[0].lo, std::min(n, 8u));
}

struct Decoder {
  KFunction* k; std::unordered_map<const LValue*, int> slot; std::unordered_map<const LValue*, int> cmap;
  int newSlots(int n) { int r = k->nslots; k->nslots += n; return r; }
  int opnd(const LValue* v) {
    auto it = slot.find(v); if (it != slot.end()) return it->second;
    if (auto* c = dyn_cast<llvm::Constant>(v)) {
      auto i2 = cmap.find(v); if (i2 != cmap.end()) return i2->second;
      std::vector<Val> vals; constVals(c, vals);
      int base = (int)gPool.size(); for (auto& x : vals) gPool.push_back(x);
      if (vals.empty()) gPool.push_back(cv(0));
      return cmap[v] = ~base;
    }
    if (isa<llvm::MetadataAsValue>(v) || isa<llvm::InlineAsm>(v)) return ~0;
    std::string s; llvm::raw_string_ostream os(s); v->print(os); die("operand without slot in " + k->name + ": " + os.str());
  }
};
static inline int opAt(int base, int i) { return base >= 0 ? base + i : ~(~base + i); }

static int nativeId(const std::string& n);
static bool isIgnoredIntrinsic(llvm::Intrinsic::ID id) {
  using namespace llvm;
  switch (id) {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::sideeffect: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::vaend: case Intrinsic::stackrestore: return true;
    default: return false;
  }
}

static void decodeFunction(KFunction* k) {
  if (k->decoded) return;
  k->decoded = true;
  const LFunction& F = *k->f;
  Decoder d; d.k = k;
  for (auto& a : F.args()) { int n = nslotsOf(a.getType()); int s = d.newSlots(n); d.slot[&a] = s; k->argSlot.push_back(s); k->argN.push_back(n); k->argByval.push_back(a.hasByValAttr() ? (u64)gDL->getTypeAllocSize(a.getParamByValType()) : 0); }
  { std::vector<unsigned> w; flatten(F.getReturnType(), w, nullptr, 0); k->retN = (int)w.size(); k->retW = w; }
  std::unordered_map<const BasicBlock*, int> bbPc;
  // slots
  for (auto& bb : F) for (auto& i : bb) if (!i.getType()->isVoidTy()) d.slot[&i] = d.newSlots(nslotsOf(i.getType()));
  // pcs: phis produce no instruction
  int pc = 0; for (auto& bb : F) { bbPc[&bb] = pc; for (auto& i : bb) if (!isa<llvm::PHINode>(i)) pc++; }
  auto edge = [&](const BasicBlock* from, const BasicBlock* to) {
    Edge e; e.target = bbPc[to];
    for (auto& phi : to->phis()) { int n = nslotsOf(phi.getType()); e.copies.push_back({d.slot[&phi], d.opnd(phi.getIncomingValueForBlock(from)), n}); }
    e.trivial = e.copies.size() <= 1 && (e.copies.empty() || e.copies[0].n == 1);
    return e;
  };
  for (auto& bb : F) for (auto& i : bb) {
    if (isa<llvm::PHINode>(i)) continue;
    KInst q; q.inst = &i;
    LType* T = i.getType();
    if (!T->isVoidTy()) { q.dst = d.slot[&i]; q.n = nslotsOf(T); }
    auto W = [&](LType* t) -> unsigned { return isa<llvm::FixedVectorType>(t) ? scalarWidth(cast<llvm::FixedVectorType>(t)->getElementType()) : scalarWidth(t); };
    switch (i.getOpcode()) {
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
      case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor: {
        q.op = K_BIN; q.width = W(T);
        static const std::map<unsigned, Op> m = {{Instruction::Add, O_ADD}, {Instruction::Sub, O_SUB}, {Instruction::Mul, O_MUL}, {Instruction::UDiv, O_UDIV}, {Instruction::SDiv, O_SDIV}, {Instruction::URem, O_UREM}, {Instruction::SRem, O_SREM}, {Instruction::Shl, O_SHL}, {Instruction::LShr, O_LSHR}, {Instruction::AShr, O_ASHR}, {Instruction::And, O_AND}, {Instruction::Or, O_OR}, {Instruction::Xor, O_XOR}};
        q.sub = m.at(i.getOpcode()); q.ops = {d.opnd(i.getOperand(0)), d.opnd(i.getOperand(1))}; break; }
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
        q.op = K_FBIN; q.width2 = fkind(T->getScalarType()); q.width = W(T);
        q.sub = i.getOpcode() == Instruction::FAdd ? O_FADD : i.getOpcode() == Instruction::FSub ? O_FSUB : i.getOpcode() == Instruction::FMul ? O_FMUL : O_FDIV;
        q.ops = {d.opnd(i.getOperand(0)), d.opnd(i.getOperand(1))}; break; }
      case Instruction::FNeg: q.op = K_FNEG; q.width = W(T); q.ops = {d.opnd(i.getOperand(0))}; break;
      case Instruction::ICmp: q.op = K_ICMP; q.sub = cast<llvm::CmpInst>(i).getPredicate(); q.width = W(i.getOperand(0)->getType()); q.ops = {d.opnd(i.getOperand(0)), d.opnd(i.getOperand(1))}; break;
      case Instruction::FCmp: q.op = K_FCMP; q.sub = cast<llvm::CmpInst>(i).getPredicate(); q.width = W(i.getOperand(0)->getType()); q.width2 = fkind(i.getOperand(0)->getType()->getScalarType()); q.ops = {d.opnd(i.getOperand(0)), d.opnd(i.getOperand(1))}; break;
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr:
        q.op = K_CAST; q.width = W(T); q.width2 = W(i.getOperand(0)->getType()); q.sub = i.getOpcode() == Instruction::SExt ? 1 : 0; q.ops = {d.opnd(i.getOperand(0))}; break;
      case Instruction::BitCast: case Instruction::AddrSpaceCast:
        if (nslotsOf(i.getOperand(0)->getType()) != q.n) { q.op = K_UNSUPPORTED; break; }
        { std::vector<unsigned> a, b; flatten(T, a, nullptr, 0); flatten(i.getOperand(0)->getType(), b, nullptr, 0); if (a != b) { q.op = K_UNSUPPORTED; break; } }
        q.op = K_COPY; q.ops = {d.opnd(i.getOperand(0))}; break;
      case Instruction::Freeze: q.op = K_FREEZE; q.ops = {d.opnd(i.getOperand(0))}; { std::vector<unsigned> w; flatten(T, w, nullptr, 0); q.widths = w; } break;
      case Instruction::FPExt: case Instruction::FPTrunc: q.op = K_FPCAST; q.width = fkind(T); q.width2 = fkind(i.getOperand(0)->getType()); q.ops = {d.opnd(i.getOperand(0))}; break;
      case Instruction::SIToFP: case Instruction::UIToFP: q.op = K_I2F; q.sub = i.getOpcode() == Instruction::SIToFP ? O_SI2FP : O_UI2FP; q.width = fkind(T); q.width2 = W(i.getOperand(0)->getType()); q.ops = {d.opnd(i.getOperand(0))}; break;
      case Instruction::FPToSI: case Instruction::FPToUI: q.op = K_F2I; q.sub = i.getOpcode() == Instruction::FPToSI ? O_FP2SI : O_FP2UI; q.width = W(T); q.width2 = fkind(i.getOperand(0)->getType()); q.ops = {d.opnd(i.getOperand(0))}; break;
      case Instruction::Select: {
        q.op = K_SELECT; { std::vector<unsigned> w; flatten(T, w, nullptr, 0); q.widths = w; }
        q.sub = i.getOperand(0)->getType()->isVectorTy(); q.ops = {d.opnd(i.getOperand(0)), d.opnd(i.getOperand(1)), d.opnd(i.getOperand(2))}; break; }
      case Instruction::Br: {
        auto& b = cast<llvm::BranchInst>(i);
        if (b.isUnconditional()) { q.op = K_BR; q.edges = {edge(&bb, b.getSuccessor(0))}; }
        else { q.op = K_CBR; q.ops = {d.opnd(b.getCondition())}; q.edges = {edge(&bb, b.getSuccessor(0)), edge(&bb, b.getSuccessor(1))}; }
        break; }
      case Instruction::Switch: {
        auto& s = cast<llvm::SwitchInst>(i); q.op = K_SWITCH; q.width = scalarWidth(s.getCondition()->getType()); q.ops = {d.opnd(s.getCondition())};
        q.edges.push_back(edge(&bb, s.getDefaultDest()));
        std::map<const BasicBlock*, int> em;
        for (auto& c : s.cases()) { auto* t = c.getCaseSuccessor(); if (!em.count(t)) { em[t] = (int)q.edges.size(); q.edges.push_back(edge(&bb, t)); } q.cases.push_back({c.getCaseValue()->getZExtValue(), em[t]}); }
        break; }
      case Instruction::Ret: q.op = K_RET; if (i.getNumOperands()) { q.ops = {d.opnd(i.getOperand(0))}; q.n = nslotsOf(i.getOperand(0)->getType()); } else q.n = 0; break;
      case Instruction::Unreachable: q.op = K_UNREACHABLE; break;
      case Instruction::Load: { q.op = K_LOAD; q.ops = {d.opnd(i.getOperand(0))}; flatten(T, q.widths, &q.offs, 0); q.isPtr = T->isPointerTy(); q.asize = gDL->getTypeStoreSize(T); break; }
      case Instruction::Store: { q.op = K_STORE; q.ops = {d.opnd(i.getOperand(1)), d.opnd(i.getOperand(0))}; flatten(i.getOperand(0)->getType(), q.widths, &q.offs, 0); q.asize = gDL->getTypeStoreSize(i.getOperand(0)->getType()); break; }
      case Instruction::Alloca: { auto& a = cast<llvm::AllocaInst>(i); q.op = K_ALLOCA; q.asize = gDL->getTypeAllocSize(a.getAllocatedType()); q.align = (unsigned)std::max<u64>(16, a.getAlign().value()); q.ops = {d.opnd(a.getArraySize())}; q.width = scalarWidth(a.getArraySize()->getType()); break; }
      case Instruction::GetElementPtr: {
        auto& g = cast<llvm::GetElementPtrInst>(i); q.op = K_GEP; q.ops = {d.opnd(g.getPointerOperand())};
        if (T->isVectorTy()) { q.op = K_UNSUPPORTED; break; }
        for (auto it = llvm::gep_type_begin(g), e = llvm::gep_type_end(g); it != e; ++it) {
          LValue* ix = it.getOperand();
          if (llvm::StructType* st = it.getStructTypeOrNull()) { q.cofs += (i64)gDL->getStructLayout(st)->getElementOffset(cast<llvm::ConstantInt>(ix)->getZExtValue()); continue; }
          i64 sc = (i64)gDL->getTypeAllocSize(it.getIndexedType());
          if (auto* ci = dyn_cast<llvm::ConstantInt>(ix)) q.cofs += ci->getSExtValue() * sc;
          else q.gep.push_back({d.opnd(ix), sc, scalarWidth(ix->getType())});
        }
        break; }
      case Instruction::Call: case Instruction::Invoke: {
        auto& c = cast<llvm::CallBase>(i); q.op = K_CALL; q.invoke = isa<llvm::InvokeInst>(i);
        if (q.invoke) { auto& v = cast<llvm::InvokeInst>(i); q.edges = {edge(&bb, v.getNormalDest()), edge(&bb, v.getUnwindDest())}; }
        if (c.isInlineAsm()) { q.op = K_UNSUPPORTED; break; }
        const LFunction* cf = dyn_cast<LFunction>(c.getCalledOperand()->stripPointerCasts());
        if (cf && cf->isIntrinsic()) {
          auto id = cf->getIntrinsicID();
          if (isIgnoredIntrinsic(id)) { q.op = K_NOP; break; }
          q.intr = (int)id;
        }
        for (unsigned a = 0; a < c.arg_size(); a++) {
          LType* t = c.getArgOperand(a)->getType();
          if (t->isMetadataTy()) continue;
          q.argSlots.push_back(d.opnd(c.getArgOperand(a))); q.argN.push_back(nslotsOf(t)); q.argTy.push_back(t);
        }
        if (!q.intr) { if (cf) q.callee = getFunc(cf); else q.ops = {d.opnd(c.getCalledOperand())}; }
        if (q.dst >= 0) { std::vector<unsigned> w; flatten(T, w, nullptr, 0); q.widths = w; if (!w.empty()) q.width = w[0]; }
        break; }
      case Instruction::LandingPad: q.op = K_LANDINGPAD; break;
      case Instruction::Resume: q.op = K_RESUME; q.ops = {d.opnd(i.getOperand(0))}; break;
      case Instruction::InsertValue: { auto& v = cast<llvm::InsertValueInst>(i); LType* et; int ix = aggIndex(T, v.getIndices(), &et); q.op = K_INSERT; q.cofs = ix; q.asize = nslotsOf(et); q.ops = {d.opnd(v.getAggregateOperand()), d.opnd(v.getInsertedValueOperand())}; break; }
      case Instruction::ExtractValue: { auto& v = cast<llvm::ExtractValueInst>(i); LType* et; int ix = aggIndex(v.getAggregateOperand()->getType(), v.getIndices(), &et); q.op = K_EXTRACT; q.cofs = ix; q.ops = {d.opnd(v.getAggregateOperand())}; break; }
      case Instruction::InsertElement: q.op = K_INSELT; q.ops = {d.opnd(i.getOperand(0)), d.opnd(i.getOperand(1)), d.opnd(i.getOperand(2))}; break;
      case Instruction::ExtractElement: q.op = K_EXTELT; q.ops = {d.opnd(i.getOperand(0)), d.opnd(i.getOperand(1))}; q.asize = nslotsOf(i.getOperand(0)->getType()); break;
      case Instruction::ShuffleVector: { auto& v = cast<llvm::ShuffleVectorInst>(i); q.op = K_SHUF; q.ops = {d.opnd(v.getOperand(0)), d.opnd(v.getOperand(1))}; q.asize = nslotsOf(v.getOperand(0)->getType()); for (int m : v.getShuffleMask()) q.shuf.push_back(m); q.width = W(T); break; }
      case Instruction::Fence: q.op = K_NOP; break;
      default: q.op = K_UNSUPPORTED; break;
    }
    k->insts.push_back(std::move(q));
  }
  if (auto* sp = F.getSubprogram()) k->file = sp->getFilename().str();
}
