// Symbolic executor for LLVM bitcode; z3 decides.  See /verif/DESIGN.md.
#include "expr.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/Scalar/LowerAtomicPass.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <atomic>
#include <map>
#include <set>
#include <memory>
#include <chrono>
#include <functional>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>

using llvm::BasicBlock; using llvm::Instruction; using llvm::cast; using llvm::dyn_cast; using llvm::isa;
typedef llvm::Type LType;
typedef llvm::Function LFunction;
typedef llvm::Value LValue;

static double nowS() { using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }
[[noreturn]] static void die(const std::string& m) { fprintf(stderr, "symex: fatal: %s\n", m.c_str()); fflush(stderr); _exit(98); }

// =============================================================== values
struct Val { u64 lo = 0; Expr* e = nullptr; };
static inline Expr* toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.lo, w); }
static inline Val fromE(Expr* e) { Val v; if (e->isConst() && e->width <= 64) v.lo = (u64)e->c; else v.e = e; return v; }
static inline Val cv(u64 x) { Val v; v.lo = x; return v; }
static inline bool sameVal(const Val& a, const Val& b) { return a.e == b.e && (a.e || a.lo == b.lo); }
static inline u64 m64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

template<class T> struct Ref {
  T* p = nullptr;
  Ref() {}
  explicit Ref(T* x) : p(x) { if (p) p->rc++; }
  Ref(const Ref& o) : p(o.p) { if (p) p->rc++; }
  Ref(Ref&& o) noexcept : p(o.p) { o.p = nullptr; }
  ~Ref() { if (p && --p->rc == 0) delete p; }
  Ref& operator=(Ref o) noexcept { std::swap(p, o.p); return *this; }
  T* operator->() const { return p; }
  T& operator*() const { return *p; }
  explicit operator bool() const { return p; }
  T* uniq() { if (p->rc > 1) { T* n = new T(*p); n->rc = 0; *this = Ref(n); } return p; }
};

// =============================================================== decoded program
enum KOp : unsigned char {
  K_BIN, K_ICMP, K_FCMP, K_FBIN, K_FNEG, K_CAST, K_SELECT, K_COPY, K_FREEZE, K_BR, K_CBR, K_SWITCH, K_RET, K_UNREACHABLE,
  K_LOAD, K_STORE, K_ALLOCA, K_GEP, K_CALL, K_LANDINGPAD, K_RESUME, K_INSERT, K_EXTRACT, K_INSELT, K_EXTELT, K_SHUF, K_ATOMICRMW, K_CMPXCHG, K_NOP,
  K_FPCAST, K_I2F, K_F2I, K_UNSUPPORTED
};
struct PhiCopy { int dst, src, n; };
struct Edge { int target; std::vector<PhiCopy> copies; bool trivial; };
struct KFunction;
struct GepTerm { int slot; i64 scale; unsigned width; };
struct KInst {
  KOp op; u8 sub = 0; // Op or predicate or cast opcode
  unsigned width = 0, width2 = 0; // result / operand width
  int dst = -1; int n = 1;        // destination slot, slot count
  std::vector<int> ops;
  std::vector<unsigned> widths;   // slot widths (load/store/args)
  std::vector<u32> offs;          // byte offsets of slots (load/store)
  std::vector<Edge> edges;
  std::vector<std::pair<u64, int>> cases; // switch
  i64 cofs = 0; std::vector<GepTerm> gep;
  u64 asize = 0; unsigned align = 1;
  std::vector<int> argSlots; // per call argument: starting operand index in ops
  std::vector<int> argN; std::vector<u64> byval; std::vector<LType*> argTy;
  KFunction* callee = nullptr; int native = -1; bool invoke = false; int intr = 0;
  std::vector<int> shuf;
  bool isPtr = false;
  const Instruction* inst = nullptr; bool hit = false; bool maysplit = false;
};
struct KFunction {
  const LFunction* f = nullptr; std::string name; bool decoded = false; bool merge = false;
  int nslots = 0; std::vector<KInst> insts; std::vector<int> argSlot, argN; std::vector<u64> argByval;
  u64 addr = 0; bool entered = false; std::string file; int native = -1; int retN = 0; std::vector<unsigned> retW; bool hasLoop = false;
};

static llvm::LLVMContext gCtx;
static std::unique_ptr<llvm::Module> gMod;
static const llvm::DataLayout* gDL;
static std::vector<Val> gPool; // constant pool; operand ~idx
static std::unordered_map<const LFunction*, KFunction*> gFuncs;
static std::map<u64, KFunction*> gFuncByAddr;
static std::unordered_map<const llvm::GlobalValue*, u64> gGlobAddr;
static std::string gSrcPrefix = "/repo/";

// =============================================================== memory
enum ObjKind : u8 { OK_GLOBAL, OK_CONST, OK_STACK, OK_MALLOC, OK_NEW, OK_NEWARR, OK_EXC };
struct Obj {
  int rc = 0; u64 base; u32 size; ObjKind kind; bool dead = false; bool internal = false;
  u32 nonconc = 0; std::vector<u8> b, m; std::vector<Expr*> s; // m: 0 concrete, 1 symbolic, 2 uninit
  const char* what = "";
  Obj(u64 base, u32 size, ObjKind k, bool uninit) : base(base), size(size), kind(k), b(size, 0) { if (uninit && size) { m.assign(size, 2); nonconc = size; } }
  void setC(u32 i, u8 v) { b[i] = v; if (nonconc && m[i]) { m[i] = 0; nonconc--; } }
  void setS(u32 i, Expr* e) {
    if (e->isConst()) { setC(i, (u8)e->c); return; }
    if (m.empty()) m.assign(size, 0);
    if (s.empty()) s.assign(size, nullptr);
    if (!m[i]) nonconc++;
    m[i] = 1; s[i] = e;
  }
  void setU(u32 i) { if (m.empty()) m.assign(size, 0); if (!m[i]) nonconc++; m[i] = 2; }
};
static std::vector<Ref<Obj>> gConstObjs; // sorted by base, immutable

// =============================================================== state
struct PCNode { Expr* c; PCNode* prev; u32 len; };
struct InNode { char kind; const char* name; u32 n; std::vector<Expr*> es; InNode* prev; };
struct ObsNode { const char* name; std::vector<Expr*> es; InNode* dummy; ObsNode* prev; };
struct Frame {
  int rc = 0; KFunction* f; int pc = 0; std::vector<Val> r; std::vector<u64> allocas; std::vector<Val> va; std::vector<LType*> vaTy;
};
struct DomEnt { u32 var; bool multi; Table t; };
struct ExcInfo { u64 ptr; u64 tinfo; u64 dtor; int handlers; };
struct UFEnt { std::vector<Expr*> key; std::vector<Expr*> val; UFEnt* prev; };
struct State {
  std::vector<Ref<Frame>> stack;
  std::vector<Ref<Obj>> mem; // sorted by base
  PCNode* pc = nullptr; std::vector<DomEnt> doms; std::shared_ptr<VarVals> model;
  std::vector<std::pair<Expr*, u64>> pinned;
  InNode* in = nullptr; ObsNode* obs = nullptr; PCNode* asserts = nullptr; UFEnt* uf = nullptr;
  std::vector<ExcInfo> excs; std::vector<u64> caught;
  u64 nextHeap = 0x500000000000ull, nextStack = 0x700000000000ull;
  u32 nextVar = 0; u64 steps = 0; u32 enums = 0; u32 depth = 0; bool escaped = false;
  u32 lastObj = 0; std::vector<const char*> reached;
  u32 turn = 0, cursor = 0; std::shared_ptr<std::vector<InNode*>> replay; // a second run of the entry on the inputs of the first
  Frame& top() { return *stack.back().uniq(); }
};

// =============================================================== statistics / shared
struct Shared { std::atomic<int> slots, stop, started, finished, viol; std::atomic<u64> paths; };
static Shared* gSh; static bool gAgain = false;
struct Stats {
  u64 paths = 0, steps = 0, forks = 0, merges = 0, queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, domDecided = 0, modelDecided = 0, asserts = 0, assertsTrivial = 0, assertsZ3 = 0, audits = 0, infeasible = 0, unexplored = 0, unsupported = 0; double solverS = 0;
};
static Stats gS;
static std::vector<std::string> gOut; // result lines of this process
static std::set<std::string> gReach;
static std::string gOutDir; static double gDeadline; static u64 gMaxSteps = 20000000; static unsigned gMaxViol = 6; static int gSampleEvery = 1; static u64 gSamples = 0, gMaxSamples = 40;
static bool gTimeUp = false; static bool gVerbose = false; static bool gNoMerge = false; static bool gLeafSplit = true; static u64 gMaxExpr = 60000000;
static std::string gMemLimitMsg;
static std::map<std::string, i64> gParams;

static std::string esc(const std::string& s) {
  std::string o; char buf[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { snprintf(buf, 8, "\\u%04x", c); o += buf; } else o += c; }
  return o;
}

// =============================================================== solver
static Z3_context Z; static Z3_solver ZS;
static unsigned gZ3Timeout = 20000;
static void z3err(Z3_context c, Z3_error_code e) { die(std::string("z3 error: ") + Z3_get_error_msg(c, e)); }
static Z3_ast notZ(Z3_ast a) { return Z3_mk_not(Z, a); }
static void setTimeout(Z3_solver s, unsigned ms) {
  Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p);
  Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), ms);
  Z3_solver_set_params(Z, s, p); Z3_params_dec_ref(Z, p);
}
static void solverInit() {
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  Z = Z3_mk_context(cfg); Z3_del_config(cfg);
  Z3_set_error_handler(Z, z3err);
  ZS = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, ZS);
  setTimeout(ZS, 1500);
}
struct QKey { u64 a, b; bool operator==(const QKey& o) const { return a == o.a && b == o.b; } };
struct QHash { size_t operator()(const QKey& k) const { return k.a ^ (k.b * 31); } };
struct QRes { int r; std::vector<std::pair<u32, u64>> m; };
static std::unordered_map<QKey, QRes, QHash> gQC;
static u64 mixq(u64 h, u64 x) { h ^= x; h *= 0x9ddfea08eb382d69ull; h ^= h >> 47; h *= 0x9ddfea08eb382d69ull; h ^= h >> 44; return h; }

// Linear integer translation, for constraints with multiplications by constants (decimal digits): exact, including
// wrap-around; tried before bit-blasting.  Anything outside the fragment makes the translation fail.
struct Lia {
  struct I { Z3_ast a = nullptr; i128 lo = 0, hi = 0; };
  std::unordered_map<Expr*, I> mi, mr; std::unordered_map<Expr*, Z3_ast> mb; std::unordered_map<u32, Table> dom; std::vector<Z3_ast> side; bool fail = false; int fresh = 0;
  Z3_sort is; Lia() { is = Z3_mk_int_sort(Z); }
  Z3_ast num(i128 v) { bool n = v < 0; u128 m = n ? (u128)0 - (u128)v : (u128)v; std::string t; do { t.insert(t.begin(), (char)('0' + (int)(m % 10))); m /= 10; } while (m); if (n) t = "-" + t; return Z3_mk_numeral(Z, t.c_str(), is); }
  Z3_ast var() { return Z3_mk_const(Z, Z3_mk_string_symbol(Z, ("q!" + std::to_string(fresh++)).c_str()), is); }
  Z3_ast add(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_add(Z, 2, x); }
  Z3_ast sub(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_sub(Z, 2, x); }
  Z3_ast mul(Z3_ast a, i128 k) { Z3_ast x[2] = {num(k), a}; return Z3_mk_mul(Z, 2, x); }
  static i128 fdiv(i128 a, i128 b) { i128 q = a / b; if (a % b && (a < 0)) q--; return q; }
  // x = q*m + r with 0 <= r < m
  void divmod(I x, i128 m, I& q, I& r) {
    i128 ql = fdiv(x.lo, m), qh = fdiv(x.hi, m);
    if (ql == qh) { q = I{num(ql), ql, ql}; r = ql == 0 ? x : I{sub(x.a, num(ql * m)), x.lo - ql * m, x.hi - ql * m}; return; }
    Z3_ast qa = var(), ra = sub(x.a, mul(qa, m));
    side.push_back(Z3_mk_ge(Z, qa, num(ql))); side.push_back(Z3_mk_le(Z, qa, num(qh))); side.push_back(Z3_mk_ge(Z, ra, num(0))); side.push_back(Z3_mk_lt(Z, ra, num(m)));
    q = I{qa, ql, qh}; r = I{ra, 0, m - 1};
  }
  I wrap(I x, unsigned w) { I q, r; if (w > 100) { fail = true; return x; } divmod(x, (i128)1 << w, q, r); return r; }
  I sgn(Expr* e) { I x = in(e); unsigned w = e->width; if (w > 100) { fail = true; return x; } i128 h = (i128)1 << (w - 1), m = (i128)1 << w; if (x.hi < h) return x; if (x.lo >= h) return I{sub(x.a, num(m)), x.lo - m, x.hi - m}; return I{Z3_mk_ite(Z, Z3_mk_ge(Z, x.a, num(h)), sub(x.a, num(m)), x.a), -h, h - 1}; }
  I in(Expr* e) {
    auto it = mi.find(e); if (it != mi.end()) return it->second;
    I r = in0(e); if (r.lo > r.hi) fail = true; mi[e] = r; return r;
  }
  // a value congruent to e modulo 2^width, without reduction: sums and multiples stay linear terms
  static bool big(i128 v) { return v > ((i128)1 << 100) || v < -((i128)1 << 100); }
  I raw(Expr* e) { auto it = mr.find(e); if (it != mr.end()) return it->second; I r = raw0(e); if (fail || big(r.lo) || big(r.hi)) r = in(e, true); mr[e] = r; return r; }
  I raw0(Expr* e) {
    if (fail) return I{num(0), 0, 0};
    switch (e->op) {
      case O_ADD: { I a = raw(e->k[0]), b = raw(e->k[1]); return I{add(a.a, b.a), a.lo + b.lo, a.hi + b.hi}; }
      case O_SUB: { I a = raw(e->k[0]), b = raw(e->k[1]); return I{sub(a.a, b.a), a.lo - b.hi, a.hi - b.lo}; }
      case O_MUL: case O_SHL: {
        unsigned w = e->width; Expr *x = e->k[0], *k = e->k[1]; if (e->op == O_MUL && x->isConst()) std::swap(x, k); if (!k->isConst() || w > 100) { fail = true; return I{num(0), 0, 0}; }
        i128 c = e->op == O_SHL ? (k->c >= w ? 0 : (i128)1 << (unsigned)k->c) : (i128)k->c; if (e->op == O_MUL && c > ((i128)1 << (w - 1))) c -= (i128)1 << w;
        I a = raw(x); i128 m = std::max(a.hi < 0 ? -a.hi : a.hi, a.lo < 0 ? -a.lo : a.lo); i128 ac = c < 0 ? -c : c;
        if (ac && m > ((i128)1 << 100) / ac) { a = in(x); m = a.hi; if (m > ((i128)1 << 100) / ac) { fail = true; return I{num(0), 0, 0}; } }
        i128 p = a.lo * c, q = a.hi * c; return I{mul(a.a, c), std::min(p, q), std::max(p, q)}; }
      case O_SEXT: return sgn(e->k[0]);
      default: return in(e);
    }
  }
  I in(Expr* e, bool) { // reduced operands, when the unreduced form has grown too large
    unsigned w = e->width; I a{}, b{};
    if (e->op == O_ADD) { a = in(e->k[0]); b = in(e->k[1]); return I{add(a.a, b.a), a.lo + b.lo, a.hi + b.hi}; }
    if (e->op == O_SUB) { a = in(e->k[0]); b = in(e->k[1]); return I{sub(a.a, b.a), a.lo - b.hi, a.hi - b.lo}; }
    (void)w; fail = true; return I{num(0), 0, 0};
  }
  I in0(Expr* e) {
    if (fail) return I{num(0), 0, 0};
    if (e->width > 100) { fail = true; return I{num(0), 0, 0}; }
    unsigned w = e->width;
    switch (e->op) {
      case O_CONST: return I{num((i128)e->c), (i128)e->c, (i128)e->c};
      case O_VAR: { Z3_ast v = Z3_mk_const(Z, Z3_mk_string_symbol(Z, ("v!" + std::to_string((u32)e->c)).c_str()), is); i128 lo = 0, hi = ((i128)1 << w) - 1; if (auto d = dom.find((u32)e->c); d != dom.end()) { lo = d->second.first(); while (!d->second.get((unsigned)hi)) hi--; } side.push_back(Z3_mk_ge(Z, v, num(lo))); side.push_back(Z3_mk_le(Z, v, num(hi))); return I{v, lo, hi}; }
      case O_ADD: case O_SUB: case O_MUL: case O_SHL: return wrap(raw(e), w);
      case O_UDIV: case O_UREM: case O_LSHR: {
        if (!e->k[1]->isConst()) { fail = true; return I{num(0), 0, 0}; }
        i128 c = (i128)e->k[1]->c; if (e->op == O_LSHR) { if (c >= w) return I{num(0), 0, 0}; c = (i128)1 << (unsigned)c; } if (c <= 0) { fail = true; return I{num(0), 0, 0}; }
        I q, r; divmod(in(e->k[0]), c, q, r); return e->op == O_UREM ? r : q; }
      case O_AND: if (w > 1 && e->k[1]->isConst()) { u128 c = e->k[1]->c; if ((c & (c + 1)) == 0) { I q, r; divmod(in(e->k[0]), (i128)c + 1, q, r); return r; } } [[fallthrough]];
      case O_OR: case O_XOR: if (w > 1 && e->op == O_XOR && e->k[1]->isConst() && e->k[1]->c == maskW(w)) { I a = in(e->k[0]); i128 m = (i128)maskW(w); return I{sub(num(m), a.a), m - a.hi, m - a.lo}; }
        if (w > 1) { I a = in(e->k[0]), b = in(e->k[1]); if (fail || a.hi > 1 || b.hi > 1) { fail = true; return a; } Z3_ast x[2] = {Z3_mk_eq(Z, a.a, num(1)), Z3_mk_eq(Z, b.a, num(1))}; Z3_ast r = e->op == O_AND ? Z3_mk_and(Z, 2, x) : e->op == O_OR ? Z3_mk_or(Z, 2, x) : Z3_mk_xor(Z, x[0], x[1]); return I{Z3_mk_ite(Z, r, num(1), num(0)), 0, 1}; } break;
      case O_ITE: if (w > 1) { Z3_ast c = bo(e->k[0]); I a = in(e->k[1]), b = in(e->k[2]); if (fail) return a; return I{Z3_mk_ite(Z, c, a.a, b.a), std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; } break;
      case O_CONCAT: { I a = in(e->k[0]), b = in(e->k[1]); i128 m = (i128)1 << e->k[1]->width; return I{add(mul(a.a, m), b.a), a.lo * m + b.lo, a.hi * m + b.hi}; }
      case O_EXTRACT: { I x = in(e->k[0]), q, r; if ((unsigned)e->c) { if (e->c > 100) { fail = true; return x; } divmod(x, (i128)1 << (unsigned)e->c, q, r); x = q; } return wrap(x, w); }
      case O_ZEXT: return in(e->k[0]);
      case O_SEXT: return wrap(sgn(e->k[0]), w);
      default: break;
    }
    if (w == 1) { Z3_ast b = bo(e); return I{Z3_mk_ite(Z, b, num(1), num(0)), 0, 1}; }
    fail = true; return I{num(0), 0, 0};
  }
  Z3_ast bo(Expr* e) { auto it = mb.find(e); if (it != mb.end()) return it->second; Z3_ast r = bo0(e); mb[e] = r; return r; }
  Z3_ast bo0(Expr* e) {
    if (fail) return Z3_mk_true(Z);
    switch (e->op) {
      case O_CONST: return e->c ? Z3_mk_true(Z) : Z3_mk_false(Z);
      case O_AND: { Z3_ast x[2] = {bo(e->k[0]), bo(e->k[1])}; return Z3_mk_and(Z, 2, x); }
      case O_OR: { Z3_ast x[2] = {bo(e->k[0]), bo(e->k[1])}; return Z3_mk_or(Z, 2, x); }
      case O_XOR: return Z3_mk_xor(Z, bo(e->k[0]), bo(e->k[1]));
      case O_ITE: return Z3_mk_ite(Z, bo(e->k[0]), bo(e->k[1]), bo(e->k[2]));
      case O_EQ: { if (e->k[0]->width == 1) return Z3_mk_iff(Z, bo(e->k[0]), bo(e->k[1])); 
        unsigned w = e->k[0]->width; if (w > 100) { fail = true; break; } I a = raw(e->k[0]), b = raw(e->k[1]); i128 m = (i128)1 << w; if (a.lo >= 0 && a.hi < m && b.lo >= 0 && b.hi < m) return Z3_mk_eq(Z, a.a, b.a);
        I q, r; divmod(I{sub(a.a, b.a), a.lo - b.hi, a.hi - b.lo}, m, q, r); return Z3_mk_eq(Z, r.a, num(0)); }
      case O_ULT: { I a = in(e->k[0]), b = in(e->k[1]); return Z3_mk_lt(Z, a.a, b.a); }
      case O_ULE: { I a = in(e->k[0]), b = in(e->k[1]); return Z3_mk_le(Z, a.a, b.a); }
      case O_SLT: { I a = sgn(e->k[0]), b = sgn(e->k[1]); return Z3_mk_lt(Z, a.a, b.a); }
      case O_SLE: { I a = sgn(e->k[0]), b = sgn(e->k[1]); return Z3_mk_le(Z, a.a, b.a); }
      case O_VAR: case O_EXTRACT: if (e->width == 1) { I a = e->op == O_VAR || e->k[0]->width > 1 ? in0(e) : I(); if (!a.a) break; return Z3_mk_eq(Z, a.a, num(1)); } break;
      default: break;
    }
    fail = true; return Z3_mk_true(Z);
  }
};
static bool heavy(Expr* e) {
  static std::unordered_map<Expr*, bool> memo; auto it = memo.find(e); if (it != memo.end()) return it->second;
  bool r = (e->op == O_MUL || e->op == O_UDIV || e->op == O_UREM) && e->width >= 32;
  for (int i = 0; i < 3 && !r; i++) if (e->k[i]) r = heavy(e->k[i]);
  return memo[e] = r;
}
static int runLia(const std::vector<Expr*>& cs, std::vector<u32> vars, std::vector<std::pair<u32, u64>>* model) {
  bool any = false; for (Expr* c : cs) if (heavy(c)) { any = true; break; }
  if (!any) return -2;
  Lia L; std::vector<Z3_ast> as;
  for (Expr* c : cs) if (isByteCond(c)) { u32 v = c->sup->v[0]; auto it = L.dom.find(v); if (it == L.dom.end()) L.dom[v] = tableOf(c); else it->second = tAnd(it->second, tableOf(c)); }
  for (auto& d : L.dom) if (d.second.none()) return 0;
 for (Expr* c : cs) { as.push_back(L.bo(c)); if (L.fail) { if (getenv("SYMEX_DUMP")) fprintf(stderr, "LIA fail: %s\n", Z3_ast_to_string(Z, toBool(Z, c))); return -2; } }
  Z3_solver s = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_LIA")); Z3_solver_inc_ref(Z, s); setTimeout(s, 15000);
  for (Z3_ast a : L.side) Z3_solver_assert(Z, s, a);
  for (Z3_ast a : as) Z3_solver_assert(Z, s, a);
  Z3_lbool r = Z3_solver_check(Z, s); int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -2;
  if (res == 1) { // a model counts only when the constraints themselves evaluate to true under it
    VarVals mv(gVars.size(), 0);
    { std::set<u32> vs(vars.begin(), vars.end()); for (Expr* c : cs) vs.insert(c->sup->v.begin(), c->sup->v.end()); vars.assign(vs.begin(), vs.end()); }
    Z3_model m = Z3_solver_get_model(Z, s); Z3_model_inc_ref(Z, m);
    for (u32 v : vars) { uint64_t val = 0; auto it = L.mi.find(gVars[v].e); if (it != L.mi.end()) { Z3_ast r2; if (!Z3_model_eval(Z, m, it->second.a, true, &r2)) die("model eval"); Z3_inc_ref(Z, r2); if (!Z3_get_numeral_uint64(Z, r2, &val)) die("model value"); Z3_dec_ref(Z, r2); } mv[v] = val; if (model) model->push_back({v, val}); }
    Z3_model_dec_ref(Z, m);
    for (Expr* c : cs) if (!evalExpr(c, mv)) { if (getenv("SYMEX_DUMP")) { fprintf(stderr, "LIA model fails: %s\n", Z3_ast_to_string(Z, toBool(Z, c))); for (u32 v : vars) fprintf(stderr, " v%u=%llu\n", v, (unsigned long long)mv[v]); } res = -3; break; }
    if (res != 1 && model) model->clear();
  }
  if (res < 0 && getenv("SYMEX_DUMP")) { static int k; FILE* f = fopen((std::string(getenv("SYMEX_DUMP")) + "." + std::to_string(getpid()) + "." + std::to_string(k++) + ".smt2").c_str(), "w"); fputs(Z3_solver_to_string(Z, s), f); fputs("(check-sat)\n", f); fclose(f); }
  Z3_solver_dec_ref(Z, s); return res;
}
static int runZ3(const std::vector<Expr*>& cs, const std::vector<u32>& vars, std::vector<std::pair<u32, u64>>* model) {
  double t0 = nowS();
  gS.queries++;
  auto extract = [&](Z3_solver s) {
    if (!model) return;
    Z3_model m = Z3_solver_get_model(Z, s); Z3_model_inc_ref(Z, m);
    for (u32 v : vars) {
      Z3_ast r; Z3_ast x = toBV(Z, gVars[v].e);
      if (!Z3_model_eval(Z, m, x, true, &r)) die("model eval");
      uint64_t val = 0;
      Z3_inc_ref(Z, r);
      if (gVars[v].width <= 64) { if (!Z3_get_numeral_uint64(Z, r, &val)) die("model value"); }
      Z3_dec_ref(Z, r);
      model->push_back({v, val});
    }
    Z3_model_dec_ref(Z, m);
  };
  if (int l = runLia(cs, vars, model); l >= 0) { gS.solverS += nowS() - t0; if (l) gS.sat++; else gS.unsat++; return l; }
  Z3_solver_push(Z, ZS);
  for (Expr* c : cs) Z3_solver_assert(Z, ZS, toBool(Z, c));
  Z3_lbool r = Z3_solver_check(Z, ZS);
  if (r == Z3_L_TRUE) extract(ZS);
  Z3_solver_pop(Z, ZS, 1);
  if (r == Z3_L_UNDEF) {
    Z3_solver s = Z3_mk_solver(Z); Z3_solver_inc_ref(Z, s); setTimeout(s, gZ3Timeout);
    for (Expr* c : cs) Z3_solver_assert(Z, s, toBool(Z, c));
    r = Z3_solver_check(Z, s);
    if (r == Z3_L_TRUE) extract(s);
    Z3_solver_dec_ref(Z, s);
  }
  gS.solverS += nowS() - t0;
  int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
  if (res == 1) gS.sat++; else if (res == 0) gS.unsat++; else gS.unknown++;
  return res;
}
// satisfiability of the state's constraints relevant to `extra`, together with extra
static int solve(State& s, Expr* extra, std::vector<std::pair<u32, u64>>* model) {
  static std::vector<u8> mark; 
  if (mark.size() < gVars.size()) mark.resize(gVars.size() * 2 + 64, 0);
  std::vector<u32> vars(extra->sup->v);
  for (u32 v : vars) mark[v] = 1;
  std::vector<Expr*> all; for (PCNode* p = s.pc; p; p = p->prev) all.push_back(p->c);
  std::vector<u8> used(all.size(), 0); std::vector<Expr*> cs;
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < all.size(); i++) if (!used[i]) {
      bool hit = false; for (u32 v : all[i]->sup->v) if (mark[v]) { hit = true; break; }
      if (!hit) continue;
      used[i] = 1; cs.push_back(all[i]);
      for (u32 v : all[i]->sup->v) if (!mark[v]) { mark[v] = 1; vars.push_back(v); ch = true; }
    }
  }
  for (u32 v : vars) mark[v] = 0;
  cs.push_back(extra);
  std::sort(cs.begin(), cs.end(), [](Expr* a, Expr* b) { return a->id < b->id; });
  cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  QKey k{1, 2}; for (Expr* c : cs) { k.a = mixq(k.a, c->id); k.b = mixq(k.b + 0x1234567, (u64)c->id * 0x9e3779b97f4a7c15ull); }
  auto it = gQC.find(k);
  if (it != gQC.end()) { gS.cacheHits++; if (model) *model = it->second.m; return it->second.r; }
  QRes q; q.r = runZ3(cs, vars, &q.m);
  if (model) *model = q.m;
  if (gQC.size() > 2000000) gQC.clear();
  gQC[k] = q;
  return q.r;
}

// =============================================================== constraints
static DomEnt* findDom(State& s, u32 var) {
  auto it = std::lower_bound(s.doms.begin(), s.doms.end(), var, [](const DomEnt& d, u32 v) { return d.var < v; });
  if (it == s.doms.end() || it->var != var) return nullptr;
  return &*it;
}
static DomEnt* getDom(State& s, u32 var) {
  auto it = std::lower_bound(s.doms.begin(), s.doms.end(), var, [](const DomEnt& d, u32 v) { return d.var < v; });
  if (it == s.doms.end() || it->var != var) { DomEnt d; d.var = var; d.multi = false; memset(&d.t, 0xff, sizeof d.t); it = s.doms.insert(it, d); }
  return &*it;
}
static void addConstraint(State& s, Expr* c) {
  if (c->isConst()) { if (!c->c) die("adding false constraint"); return; }
  if (c->op == O_AND) { addConstraint(s, c->k[0]); addConstraint(s, c->k[1]); return; }
  if (isByteCond(c)) { DomEnt* d = getDom(s, c->sup->v[0]); auto t = tAnd(d->t, tableOf(c)); if (!memcmp(&t, &d->t, sizeof t)) return; d->t = t; } // follows from what is known of the byte
  else for (PCNode* p = s.pc; p; p = p->prev) if (p->c == c) return;
  s.pc = new PCNode{c, s.pc, s.pc ? s.pc->len + 1 : 1};
  if (isByteCond(c)) {}
  else for (u32 v : c->sup->v) if (gVars[v].width == 8) getDom(s, v)->multi = true;
  if (c->op == O_EQ && c->k[1]->isConst() && c->k[0]->width <= 64) s.pinned.push_back({c->k[0], (u64)c->k[1]->c});
}
static void setModel(State& s, u32 var, u64 v) {
  if (s.model.use_count() > 1) s.model = std::make_shared<VarVals>(*s.model);
  if (s.model->size() <= var) s.model->resize(var + 16, 0);
  (*s.model)[var] = v;
}
static void setModel(State& s, const std::vector<std::pair<u32, u64>>& m) { for (auto& p : m) setModel(s, p.first, p.second); }

struct EngineStop { const char* why; };

// Decisions taken from the exact 256-entry domain of a byte are sampled and put to Z3 as well; it must agree.
static void audit(State& s, Expr* c, int verdict) {
  static u64 next = 0; if (gS.domDecided < next) return; // ever more rarely
  next = gS.domDecided + 1 + gS.domDecided / 16; gS.audits++;
  for (int side = 0; side < 2; side++) {
    int r = solve(s, side ? c : mkNot(c), nullptr), want = (verdict >> side) & 1;
    if (r >= 0 && r != want) die("a byte-domain decision disagrees with Z3");
  }
}
// A condition on one byte that the state's domain for that byte decides is a constant there; conditions built from such
// conditions are rewritten accordingly (equivalent under the path condition).
static Expr* simpByte(State& s, Expr* e) {
  DomEnt* d = findDom(s, e->sup->v[0]); if (!d) return e;
  const Table& t = tableOf(e);
  if (tAndN(d->t, t).none()) { gS.domDecided++; audit(s, e, 2); return mkConst(1, 1); }
  if (tAnd(d->t, t).none()) { gS.domDecided++; audit(s, e, 1); return mkConst(0, 1); }
  return e;
}
static Expr* simp(State& s, Expr* e, int& budget) {
  if (e->width != 1 || e->isConst()) return e;
  if (isByteCond(e)) return simpByte(s, e);
  if (--budget < 0) return e;
  switch (e->op) {
    case O_AND: case O_OR: case O_XOR: case O_EQ: {
      if (e->k[0]->width != 1) return e;
      Expr *a = simp(s, e->k[0], budget), *b = simp(s, e->k[1], budget);
      return a == e->k[0] && b == e->k[1] ? e : mkBin(e->op, a, b); }
    case O_ITE: {
      Expr *c = simp(s, e->k[0], budget);
      if (c->isConst()) return simp(s, e->k[c->c ? 1 : 2], budget);
      Expr *a = simp(s, e->k[1], budget), *b = simp(s, e->k[2], budget);
      return c == e->k[0] && a == e->k[1] && b == e->k[2] ? e : mkIte(c, a, b); }
    default: return e;
  }
}
static Expr* simp(State& s, Expr* e) { int budget = 200; return simp(s, e, budget); }
// The first condition on a single byte that a condition over several bytes is built from.
static Expr* leafOf(State& s, Expr* e, int& budget) {
  if (e->width != 1 || e->isConst() || --budget < 0) return nullptr;
  if (isByteCond(e)) { DomEnt* d = findDom(s, e->sup->v[0]); return d && d->multi ? nullptr : e; }
  switch (e->op) {
    case O_AND: case O_OR: case O_XOR: case O_EQ: if (e->k[0]->width != 1) return nullptr;
      if (Expr* r = leafOf(s, e->k[0], budget)) return r; return leafOf(s, e->k[1], budget);
    case O_ITE: for (int i = 0; i < 3; i++) if (Expr* r = leafOf(s, e->k[i], budget)) return r; return nullptr;
    default: return nullptr;
  }
}
// feasibility of cond in s.  returns bit0: may be false, bit1: may be true.  models for each side.
static std::string backtrace(State& s);
static int decide(State& s, Expr* c, std::vector<std::pair<u32, u64>>* mT, std::vector<std::pair<u32, u64>>* mF, bool& curTrue) {
  curTrue = evalExpr(c, *s.model) != 0;
  if (isByteCond(c)) {
    u32 v = c->sup->v[0]; DomEnt* d = findDom(s, v);
    Table full; memset(&full, 0xff, sizeof full);
    Table a = d ? d->t : full; const Table& t = tableOf(c);
    Table x = tAnd(a, t), y = tAndN(a, t);
    if (y.none()) { gS.domDecided++; audit(s, c, 2); return 2; }
    if (x.none()) { gS.domDecided++; audit(s, c, 1); return 1; }
    if (!d || !d->multi) {
      gS.domDecided++; audit(s, c, 3);
      if (curTrue) mF->push_back({v, (u64)y.first()}); else mT->push_back({v, (u64)x.first()});
      return 3;
    }
  }
  gS.modelDecided++;
  if (gVerbose) fprintf(stderr, "branch: %zu vars, dom %d: %s\n", c->sup->v.size(), isByteCond(c) ? 1 : 0, backtrace(s).c_str());
  std::vector<std::pair<u32, u64>> m;
  int r = solve(s, curTrue ? mkNot(c) : c, &m);
  if (r < 0) throw EngineStop{"solver-unknown"};
  if (r == 0) return curTrue ? 2 : 1;
  (curTrue ? *mF : *mT) = m;
  return 3;
}

// =============================================================== executor declarations
typedef std::vector<State*> WL;
static void violation(State& s, const std::string& kind, const std::string& msg, const std::vector<std::pair<u32, u64>>* extraModel = nullptr, Expr* extra = nullptr);
enum Step { ST_CONT, ST_DEAD, ST_RET };

struct PathEnd {};

static State* cloneState(State& s) { gS.forks++; State* n = new State(s); n->depth++; return n; }

// branch: returns 1 true-only, 0 false-only, 2 both (s gets true, *other the false side)
static int branch(State& s, Expr* c, State** other) {
  if (c->isConst()) return c->c ? 1 : 0;
  std::vector<std::pair<u32, u64>> mT, mF; bool cur;
  int r = decide(s, c, &mT, &mF, cur);
  if (r == 2) return 1;
  if (r == 1) return 0;
  *other = cloneState(s);
  setModel(s, mT); setModel(**other, mF);
  addConstraint(s, c); addConstraint(**other, mkNot(c));
  return 2;
}

// =============================================================== address space
static Obj* findObj(State& s, u64 addr, int* idx) {
  auto& m = s.mem;
  if (s.lastObj < m.size()) { Obj* o = m[s.lastObj].p; if (addr >= o->base && addr <= o->base + o->size) { if (addr < o->base + o->size || o->size == 0) { *idx = (int)s.lastObj; return o; } } }
  auto up = std::upper_bound(m.begin(), m.end(), addr, [](u64 a, const Ref<Obj>& o) { return a < o->base; });
  if (up != m.begin()) { --up; Obj* o = up->p; if (addr - o->base < o->size || addr == o->base) { *idx = int(up - m.begin()); s.lastObj = *idx; return o; } }
  auto u2 = std::upper_bound(gConstObjs.begin(), gConstObjs.end(), addr, [](u64 a, const Ref<Obj>& o) { return a < o->base; });
  if (u2 != gConstObjs.begin()) { --u2; Obj* o = u2->p; if (addr - o->base < o->size || addr == o->base) { *idx = -1; return o; } }
  return nullptr;
}
static u64 allocObj(State& s, u64 size, ObjKind k, bool uninit, u64 align = 16) {
  u64& n = k == OK_STACK ? s.nextStack : s.nextHeap;
  u64 base = (n + align - 1) / align * align;
  n = base + size + 256 + (size > 256 ? size / 2 : 0);
  n = (n + 15) / 16 * 16;
  Ref<Obj> o(new Obj(base, (u32)size, k, uninit));
  auto it = std::upper_bound(s.mem.begin(), s.mem.end(), base, [](u64 a, const Ref<Obj>& o) { return a < o->base; });
  s.mem.insert(it, o);
  return base;
}
static void removeObj(State& s, int idx) { s.mem.erase(s.mem.begin() + idx); s.lastObj = 0; }
static std::string descAddr(State& s, u64 a) {
  char b[200];
  // nearest object at or below
  const Obj* best = nullptr;
  for (auto& o : s.mem) if (o->base <= a && (!best || o->base > best->base)) best = o.p;
  if (a < 4096) snprintf(b, 200, "null pointer (+%llu)", (unsigned long long)a);
  else if (best && a - best->base < best->size + 4096) snprintf(b, 200, "%llu bytes past start of a %u-byte %s object", (unsigned long long)(a - best->base), best->size, best->kind == OK_STACK ? "stack" : best->kind <= OK_CONST ? "global" : "heap");
  else snprintf(b, 200, "address 0x%llx in no live object", (unsigned long long)a);
  return b;
}
struct Viol { std::string kind, msg; };
static Obj* access(State& s, u64 addr, u64 n, bool write, int* idx, const char* what) {
  Obj* o = findObj(s, addr, idx);
  if (!o || addr < o->base || addr - o->base + n > o->size) throw Viol{"memory", std::string(what) + " of " + std::to_string(n) + " bytes at " + descAddr(s, addr) + " (out of bounds or freed)"};
  if (o->dead) throw Viol{"memory", std::string(what) + " of a stack object after its lifetime ended"};
  if (write && (*idx < 0 || o->kind == OK_CONST)) throw Viol{"memory", "write to constant memory"};
  return o;
}
static Expr* freshVar(State& s, unsigned w, bool uninit, const std::string& name) {
  Expr* e = mkVar(s.nextVar++, w, uninit, name);
  return e;
}
static Obj* writable(State& s, int idx) { return s.mem[idx].uniq(); }
static Expr* byteAt(State& s, Obj*& o, int idx, u32 off) {
  if (!o->nonconc || !o->m[off]) return mkConst(o->b[off], 8);
  if (o->m[off] == 1) return o->s[off];
  if (idx < 0) return mkConst(0, 8);
  o = writable(s, idx);
  Expr* e = freshVar(s, 8, true, "uninit");
  o->setS(off, e);
  return e;
}
static Val loadBytes(State& s, u64 addr, unsigned nbytes, unsigned width, const char* what = "read") {
  int idx; Obj* o = access(s, addr, nbytes, false, &idx, what);
  u32 off = u32(addr - o->base);
  bool conc = true;
  if (o->nonconc) for (unsigned i = 0; i < nbytes; i++) if (o->m[off + i]) { conc = false; break; }
  if (conc) {
    if (width <= 64) { u64 v = 0; memcpy(&v, &o->b[off], nbytes); return cv(v & m64(width)); }
    u128 v = 0; memcpy(&v, &o->b[off], nbytes); Val r; r.e = mkConst(v, width); return r;
  }
  Expr* e = byteAt(s, o, idx, off);
  for (unsigned i = 1; i < nbytes; i++) { Expr* b = byteAt(s, o, idx, off + i); e = mkConcat(b, e); }
  if (e->width > width) e = mkExtract(e, 0, width);
  Val r = fromE(e); if (width > 64) r.e = e;
  return r;
}
static void storeBytes(State& s, u64 addr, unsigned nbytes, unsigned width, const Val& v, const char* what = "write") {
  int idx; access(s, addr, nbytes, true, &idx, what);
  Obj* o = writable(s, idx); u32 off = u32(addr - o->base);
  if (!v.e) { u64 x = v.lo; for (unsigned i = 0; i < nbytes; i++) { o->setC(off + i, i < 8 ? (u8)(x >> (8 * i)) : 0); } return; }
  Expr* e = v.e; if (e->width < nbytes * 8) e = mkZext(e, nbytes * 8);
  for (unsigned i = 0; i < nbytes; i++) o->setS(off + i, mkExtract(e, 8 * i, 8));
}

// =============================================================== concretisation
// Make v concrete, forking the other values into wl (they re-execute the current instruction).
static u64 concretize(State& s, Val& v, unsigned w, WL& wl) {
  if (!v.e) return v.lo;
  if (v.e->isConst()) { v.lo = (u64)v.e->c; v.e = nullptr; return v.lo; }
  for (auto& p : s.pinned) if (p.first == v.e) { v.lo = p.second; v.e = nullptr; return v.lo; }
  Expr* e = v.e;
  if (e->sup->uninit) {
    u64 a = (u64)evalExpr(e, *s.model);
    VarVals alt(*s.model); for (u32 x : e->sup->v) if (gVars[x].uninit) { if (alt.size() <= x) alt.resize(x + 1, 0); alt[x] = 0xff; }
    if ((u64)evalExpr(e, alt) != a) throw Viol{"uninit", "use of an uninitialised value as address, size or branch target"};
  }
  if (++s.enums > 20000) throw EngineStop{"too-many-values"};
  u64 val = (u64)evalExpr(e, *s.model);
  Expr* c = mkEq(e, mkConst(val, w));
  if (!c->isConst()) {
    State* other = nullptr;
    int r = branch(s, c, &other);
    if (r == 2) wl.push_back(other);
    else if (r == 0) die("concretize: model inconsistent");
    s.pinned.push_back({e, val});
  }
  v.lo = val; v.e = nullptr;
  return val;
}
// Resolve an address for an access of n bytes: finds out-of-bounds values first.
static u64 resolveAddr(State& s, Val& a, unsigned n, WL& wl, bool write) {
  if (!a.e) return a.lo;
  for (auto& p : s.pinned) if (p.first == a.e) { a.lo = p.second; a.e = nullptr; return a.lo; }
  u64 cur = (u64)evalExpr(a.e, *s.model);
  int idx; Obj* o = findObj(s, cur, &idx);
  if (o && cur - o->base + n <= o->size) {
    // may it leave this object?
    Expr* off = mkBin(O_SUB, a.e, mkConst(o->base, 64));
    Expr* in = mkBin(O_ULE, off, mkConst(o->size - n, 64));
    State* other = nullptr;
    int r = branch(s, in, &other);
    if (r == 2) {
      wl.push_back(other); // re-executes; resolves to another object or violates
    }
  }
  return concretize(s, a, 64, wl);
}

// =============================================================== output of violations and samples
static std::string locStr(const Instruction* i) {
  if (!i) return "?";
  std::string r;
  if (const llvm::DILocation* l = i->getDebugLoc().get()) {
    r = l->getFilename().str() + ":" + std::to_string(l->getLine());
    while ((l = l->getInlinedAt())) { r += " <- " + l->getFilename().str() + ":" + std::to_string(l->getLine()); }
  }
  return r;
}
static std::string backtrace(State& s) {
  std::string r;
  for (size_t i = s.stack.size(); i-- > 0 && s.stack.size() - i < 8;) {
    Frame& f = *s.stack[i]; if (f.pc < (int)f.f->insts.size()) r += llvm::demangle(f.f->name).substr(0, 80) + " (" + locStr(f.f->insts[f.pc].inst) + "); ";
  }
  return r;
}
static std::string hexOf(const std::vector<Expr*>& es, const VarVals& m) {
  std::string r; char b[4];
  for (Expr* e : es) { u128 v = evalExpr(e, m); for (unsigned i = 0; i < e->width; i += 8) { snprintf(b, 4, "%02x", (unsigned)((v >> i) & 0xff)); r += b; } }
  return r;
}
static std::string inputsJson(State& s, const VarVals& m) {
  std::vector<InNode*> v; for (InNode* n = s.in; n; n = n->prev) v.push_back(n);
  std::string r = "[";
  for (size_t i = v.size(); i-- > 0;) { if (r.size() > 1) r += ","; r += std::string("[\"") + v[i]->kind + "\",\"" + esc(v[i]->name) + "\",\"" + hexOf(v[i]->es, m) + "\"]"; }
  return r + "]";
}
static std::string obsJson(State& s, const VarVals& m) {
  std::vector<ObsNode*> v; for (ObsNode* n = s.obs; n; n = n->prev) v.push_back(n);
  std::string r = "[";
  for (size_t i = v.size(); i-- > 0;) { if (r.size() > 1) r += ","; r += std::string("[\"") + esc(v[i]->name) + "\",\"" + hexOf(v[i]->es, m) + "\"]"; }
  return r + "]";
}
static std::string flagsJson(State& s);
static void violation(State& s, const std::string& kind, const std::string& msg, const std::vector<std::pair<u32, u64>>* mx, Expr* extra) {
  VarVals m(*s.model);
  if (mx) for (auto& p : *mx) { if (m.size() <= p.first) m.resize(p.first + 1, 0); m[p.first] = p.second; }
  // the whole path condition under z3, as the verdict
  std::vector<Expr*> cs; std::vector<u32> vars; std::set<u32> vs;
  for (PCNode* p = s.pc; p; p = p->prev) { cs.push_back(p->c); for (u32 v : p->c->sup->v) vs.insert(v); }
  if (extra) { cs.push_back(extra); for (u32 v : extra->sup->v) vs.insert(v); }
  vars.assign(vs.begin(), vs.end());
  int r = cs.empty() ? 1 : runZ3(cs, vars, nullptr);
  bool modelOk = true; for (Expr* c : cs) if (!evalExpr(c, m)) modelOk = false;
  if (!modelOk) { std::vector<std::pair<u32, u64>> mm; r = runZ3(cs, vars, &mm); if (r == 1) for (auto& p : mm) { if (m.size() <= p.first) m.resize(p.first + 1, 0); m[p.first] = p.second; } }
  if (r == 0) { gOut.push_back("{\"t\":\"error\",\"msg\":\"solver refuted a reported violation (" + esc(msg) + ")\"}"); return; }
  gSh->viol++;
  gOut.push_back("{\"t\":\"violation\",\"kind\":\"" + esc(kind) + "\",\"msg\":\"" + esc(msg) + "\",\"where\":\"" + esc(backtrace(s)) + "\",\"z3\":" + std::to_string(r) + ",\"inputs\":" + inputsJson(s, m) + ",\"flags\":" + flagsJson(s) + ",\"obs\":" + obsJson(s, m) + "}");
  if (gSh->viol >= (int)gMaxViol) gSh->stop = 1;
}

// =============================================================== leak detection
static void leakCheck(State& s) {
  std::vector<u8> mark(s.mem.size(), 0); std::vector<int> q;
  for (size_t i = 0; i < s.mem.size(); i++) if (s.mem[i]->kind <= OK_STACK) { mark[i] = 1; q.push_back(i); }
  bool any = false; for (auto& o : s.mem) if (o->kind >= OK_MALLOC) any = true;
  if (!any) return;
  while (!q.empty()) {
    Obj* o = s.mem[q.back()].p; q.pop_back();
    for (u32 i = 0; i + 8 <= o->size; i += 8) {
      bool c = true; if (o->nonconc) for (int j = 0; j < 8; j++) if (o->m[i + j]) c = false;
      if (!c) continue;
      u64 p; memcpy(&p, &o->b[i], 8);
      if (p < 0x500000000000ull) continue;
      int idx; Obj* t = findObj(s, p, &idx);
      if (t && idx >= 0 && !mark[idx]) { mark[idx] = 1; q.push_back(idx); }
    }
  }
  u64 n = 0, bytes = 0; for (size_t i = 0; i < s.mem.size(); i++) if (!mark[i] && s.mem[i]->kind >= OK_MALLOC) { n++; bytes += s.mem[i]->size; }
  if (n) throw Viol{"leak", "memory leak: " + std::to_string(n) + " unreachable heap object(s), " + std::to_string(bytes) + " bytes"};
}

static std::string flagsJson(State& s) { std::string r; for (auto x : s.reached) if (x[0] == '!') r += (r.empty() ? "\"" : ",\"") + esc(x + 1) + "\""; return "[" + r + "]"; }
static void pathEnd(State& s) {
  gS.paths++; gSh->paths++; gS.steps += s.steps;
  for (auto r : s.reached) gReach.insert(r);
  // z3's verdict on all assertions of the path that needed more than symbolic simplification
  if (s.asserts) {
    Expr* conj = mkConst(1, 1); for (PCNode* p = s.asserts; p; p = p->prev) conj = mkAnd(p->c, conj);
    Expr* neg = mkNot(conj);
    if (!neg->isConst()) {
      std::vector<std::pair<u32, u64>> m; int r = solve(s, neg, &m);
      if (r < 0) throw EngineStop{"solver-unknown"};
      if (r == 1) { violation(s, "assert", "assertion refuted by the final query", &m, neg); return; }
      gS.assertsZ3++;
    }
  }
  if (gSamples < gMaxSamples && (gS.paths % gSampleEvery == 0 || gS.paths <= 2)) {
    std::vector<Expr*> cs; std::vector<u32> none; for (PCNode* p = s.pc; p; p = p->prev) cs.push_back(p->c);
    if (!cs.empty()) { gS.audits++; if (runZ3(cs, none, nullptr) == 0) die("Z3 refutes the condition of a completed path"); }
    gSamples++; if (gSamples >= 6) gSampleEvery = std::min(100000, gSampleEvery * 2);
    gOut.push_back("{\"t\":\"path\",\"inputs\":" + inputsJson(s, *s.model) + ",\"obs\":" + obsJson(s, *s.model) + ",\"constraints\":" + std::to_string(s.pc ? s.pc->len : 0) + ",\"flags\":" + flagsJson(s) + ",\"steps\":" + std::to_string(s.steps) + "}");
  }
}

#include "decode.inc"
#include "exec.inc"
#include "main.inc"
