#include "expr.hpp"
#include <map>
#include <unistd.h>
#include <set>
#include <unordered_set>

std::vector<VarInfo> gVars;
u64 gExprCount = 0;

// ---------------------------------------------------------------- arena and interning
static Expr* arenaAlloc() {
  static char* cur = nullptr; static size_t left = 0;
  if (left < sizeof(Expr)) { left = 4096 * sizeof(Expr); cur = (char*)malloc(left); if (!cur) { fprintf(stderr, "out of memory\n"); _exit(97); } }
  Expr* e = new (cur) Expr(); cur += sizeof(Expr); left -= sizeof(Expr); return e;
}
static inline u64 mix(u64 h, u64 x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }
static std::vector<Expr*> gTab(1 << 16, nullptr);
static size_t gTabN = 0;
static u64 hashNode(Op op, u8 aux, unsigned w, Expr* a, Expr* b, Expr* c3, u128 c) {
  u64 h = op * 1315423911u + aux * 77 + w * 131071;
  h = mix(h, a ? a->id + 1 : 0); h = mix(h, b ? b->id + 1 : 0); h = mix(h, c3 ? c3->id + 1 : 0);
  h = mix(h, (u64)c); h = mix(h, (u64)(c >> 64)); return h;
}

struct SupHash { size_t operator()(const std::vector<u32>& v) const { u64 h = 7; for (u32 x : v) h = mix(h, x); return h; } };
static std::unordered_map<std::vector<u32>, Support*, SupHash> gSups;
struct PPHash { size_t operator()(const std::pair<const Support*, const Support*>& p) const { return mix((u64)p.first, (u64)p.second); } };
static std::unordered_map<std::pair<const Support*, const Support*>, const Support*, PPHash> gSupMerge;
static const Support* gEmptySup;
static const Support* internSup(const std::vector<u32>& v) {
  auto it = gSups.find(v);
  if (it != gSups.end()) return it->second;
  Support* s = new Support; s->v = v;
  for (u32 x : v) if (gVars[x].uninit) s->uninit = true;
  gSups[v] = s; return s;
}
static const Support* mergeSup(const Support* a, const Support* b) {
  if (a == b || b->v.empty()) return a;
  if (a->v.empty()) return b;
  if (a > b) std::swap(a, b);
  auto key = std::make_pair(a, b);
  auto it = gSupMerge.find(key);
  if (it != gSupMerge.end()) return it->second;
  std::vector<u32> r; r.reserve(a->v.size() + b->v.size());
  std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
  const Support* s = internSup(r);
  gSupMerge[key] = s; return s;
}

static Expr* intern(Op op, u8 aux, unsigned w, Expr* a, Expr* b, Expr* c3, u128 c) {
  u64 h = hashNode(op, aux, w, a, b, c3, c);
  size_t m = gTab.size() - 1, i = h & m;
  while (Expr* e = gTab[i]) {
    if (e->op == op && e->aux == aux && e->width == w && e->k[0] == a && e->k[1] == b && e->k[2] == c3 && e->c == c) return e;
    i = (i + 1) & m;
  }
  Expr* e = arenaAlloc();
  e->op = op; e->aux = aux; e->width = w; e->k[0] = a; e->k[1] = b; e->k[2] = c3; e->c = c; e->id = (u32)gExprCount++;
  const Support* s = gEmptySup;
  if (a) s = mergeSup(s, a->sup);
  if (b) s = mergeSup(s, b->sup);
  if (c3) s = mergeSup(s, c3->sup);
  e->sup = s;
  gTab[i] = e;
  if (++gTabN * 2 > gTab.size()) {
    std::vector<Expr*> old(gTab.size() * 2, nullptr); old.swap(gTab);
    size_t mm = gTab.size() - 1;
    for (Expr* x : old) if (x) {
      size_t j = hashNode(x->op, x->aux, x->width, x->k[0], x->k[1], x->k[2], x->c) & mm;
      while (gTab[j]) j = (j + 1) & mm;
      gTab[j] = x;
    }
  }
  return e;
}

void exprInit() { gEmptySup = internSup({}); }

Expr* mkConst(u128 v, unsigned w) {
  static Expr* small[65][16];
  v &= maskW(w);
  if (w <= 64 && v < 16) { Expr*& s = small[w][(unsigned)v]; if (!s) s = intern(O_CONST, 0, w, nullptr, nullptr, nullptr, v); return s; }
  return intern(O_CONST, 0, w, nullptr, nullptr, nullptr, v);
}

static std::map<std::pair<u64, std::string>, u32> gVarIds;
Expr* mkVar(u32 idx, unsigned w, bool uninit, const std::string& name) {
  auto key = std::make_pair(((u64)idx << 9) | (w << 1) | (uninit ? 1 : 0), name);
  auto it = gVarIds.find(key);
  if (it != gVarIds.end()) return gVars[it->second].e;
  u32 id = gVars.size();
  gVarIds[key] = id;
  gVars.push_back({name, w, uninit, nullptr});
  Expr* e = intern(O_VAR, 0, w, nullptr, nullptr, nullptr, id);
  e->sup = internSup({id});
  gVars[id].e = e;
  return e;
}

// ---------------------------------------------------------------- folding
u128 foldBin(Op op, u128 a, u128 b, unsigned w) {
  u128 m = maskW(w); a &= m; b &= m;
  switch (op) {
    case O_ADD: return (a + b) & m;
    case O_SUB: return (a - b) & m;
    case O_MUL: return (a * b) & m;
    case O_UDIV: return b ? a / b : m;
    case O_SDIV: { if (!b) return sextW(a, w) < 0 ? 1 : m; return (u128)(sextW(a, w) / sextW(b, w)) & m; }
    case O_UREM: return b ? a % b : a;
    case O_SREM: { if (!b) return a; return (u128)(sextW(a, w) % sextW(b, w)) & m; }
    case O_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case O_LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case O_ASHR: { i128 s = sextW(a, w); return (u128)(s >> (b >= w ? w - 1 : (unsigned)b)) & m; }
    case O_AND: return a & b;
    case O_OR: return a | b;
    case O_XOR: return a ^ b;
    case O_EQ: return a == b;
    case O_ULT: return a < b;
    case O_ULE: return a <= b;
    case O_SLT: return sextW(a, w) < sextW(b, w);
    case O_SLE: return sextW(a, w) <= sextW(b, w);
    default: abort();
  }
}
static long double getF(unsigned kind, u128 a) {
  if (kind == 0) { u32 x = (u32)a; float f; memcpy(&f, &x, 4); return f; }
  if (kind == 1) { u64 x = (u64)a; double f; memcpy(&f, &x, 8); return f; }
  long double f = 0; memcpy(&f, &a, 10); return f;
}
static u128 putF(unsigned kind, long double v) {
  if (kind == 0) { float f = (float)v; u32 x; memcpy(&x, &f, 4); return x; }
  if (kind == 1) { double f = (double)v; u64 x; memcpy(&x, &f, 8); return x; }
  u128 r = 0; memcpy(&r, &v, 10); return r;
}
bool foldFcmp(unsigned pred, unsigned kind, u128 a, u128 b) {
  long double x = getF(kind, a), y = getF(kind, b);
  bool uno = std::isnan(x) || std::isnan(y);
  bool r = false;
  if (uno) r = pred & 8; else { if ((pred & 1) && x == y) r = true; if ((pred & 2) && x > y) r = true; if ((pred & 4) && x < y) r = true; }
  return r;
}
u128 foldFbin(Op op, unsigned kind, u128 a, u128 b) {
#define FB(T) { T x = (T)getF(kind, a), y = (T)getF(kind, b), r = 0; switch (op) { case O_FADD: r = x + y; break; case O_FSUB: r = x - y; break; case O_FMUL: r = x * y; break; case O_FDIV: r = x / y; break; default: abort(); } return putF(kind, r); }
  if (kind == 0) FB(float)
  if (kind == 1) FB(double)
  FB(long double)
}
u128 foldFcast(unsigned from, unsigned to, u128 a) {
  if (from == 1 && to == 0) { u64 x = (u64)a; double d; memcpy(&d, &x, 8); float f = (float)d; u32 r; memcpy(&r, &f, 4); return r; }
  return putF(to, getF(from, a));
}
u128 foldI2F(Op op, unsigned kind, u128 a, unsigned w) {
  if (op == O_SI2FP) { i64 s = (i64)sextW(a, w); if (kind == 0) return putF(0, (float)s); if (kind == 1) return putF(1, (double)s); return putF(2, (long double)s); }
  u64 s = (u64)(a & maskW(w)); if (kind == 0) return putF(0, (float)s); if (kind == 1) return putF(1, (double)s); return putF(2, (long double)s);
}
u128 foldF2I(Op op, unsigned kind, u128 a, unsigned w) {
  long double x = getF(kind, a);
  if (std::isnan(x)) return 0;
  if (op == O_FP2SI) return (u128)(i128)(i64)x & maskW(w);
  return (u128)(u64)x & maskW(w);
}

// ---------------------------------------------------------------- evaluation
static u64 gEpoch = 0;
static const VarVals* gEvalM;
static u128 ev(Expr* e) {
  if (e->op == O_CONST) return e->c;
  if (e->epoch == gEpoch) return e->ev;
  u128 r;
  switch (e->op) {
    case O_VAR: { u64 id = (u64)e->c; r = id < gEvalM->size() ? (*gEvalM)[id] : 0; break; }
    case O_ITE: r = ev(e->k[0]) ? ev(e->k[1]) : ev(e->k[2]); break;
    case O_CONCAT: r = (ev(e->k[0]) << e->k[1]->width) | ev(e->k[1]); break;
    case O_EXTRACT: r = (ev(e->k[0]) >> (unsigned)e->c) & maskW(e->width); break;
    case O_ZEXT: r = ev(e->k[0]); break;
    case O_SEXT: r = (u128)sextW(ev(e->k[0]), e->k[0]->width) & maskW(e->width); break;
    case O_FCMP: r = foldFcmp((unsigned)e->c, e->aux, ev(e->k[0]), ev(e->k[1])); break;
    case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: r = foldFbin(e->op, e->aux, ev(e->k[0]), ev(e->k[1])); break;
    case O_FPCAST: r = foldFcast(e->aux >> 2, e->aux & 3, ev(e->k[0])); break;
    case O_SI2FP: case O_UI2FP: r = foldI2F(e->op, e->aux, ev(e->k[0]), e->k[0]->width); break;
    case O_FP2SI: case O_FP2UI: r = foldF2I(e->op, e->aux, ev(e->k[0]), e->width); break;
    default: r = foldBin(e->op, ev(e->k[0]), ev(e->k[1]), e->k[0]->width); break;
  }
  e->epoch = gEpoch; e->ev = r;
  return r;
}
u128 evalExpr(Expr* e, const VarVals& m) {
  if (e->op == O_CONST) return e->c;
  gEpoch++; gEvalM = &m; return ev(e);
}
bool isByteCond(Expr* e) { return e->sup->v.size() == 1 && gVars[e->sup->v[0]].width == 8; }
static VarVals gByteVals;
u128 evalByte(Expr* e, unsigned value) {
  u32 v = e->sup->v[0];
  if (gByteVals.size() <= v) gByteVals.resize(v + 64, 0);
  u64 old = gByteVals[v]; gByteVals[v] = value;
  u128 r = evalExpr(e, gByteVals);
  gByteVals[v] = old; return r;
}
const Table& tableOf(Expr* e) {
  if (e->table) return *e->table;
  Table t; memset(&t, 0, sizeof t);
  bool done = false;
  if (e->op == O_AND || e->op == O_OR || e->op == O_XOR) {
    Table a, b; bool ok = true;
    auto get = [&](Expr* x, Table& o) { if (x->isConst()) { memset(&o, x->c ? 0xff : 0, sizeof o); } else if (isByteCond(x)) o = tableOf(x); else ok = false; };
    get(e->k[0], a); get(e->k[1], b);
    if (ok) { for (int i = 0; i < 4; i++) t.w[i] = e->op == O_AND ? a.w[i] & b.w[i] : e->op == O_OR ? a.w[i] | b.w[i] : a.w[i] ^ b.w[i]; done = true; }
  }
  if (!done) for (unsigned i = 0; i < 256; i++) if (evalByte(e, i)) t.set(i);
  e->table = new Table(t);
  return *e->table;
}

// ---------------------------------------------------------------- construction with simplification
struct CanonKey { u32 v; Table t; bool operator==(const CanonKey& o) const { return v == o.v && t == o.t; } };
struct CanonHash { size_t operator()(const CanonKey& k) const { u64 h = k.v; for (int i = 0; i < 4; i++) h = mix(h, k.t.w[i]); return h; } };
static std::unordered_map<CanonKey, Expr*, CanonHash> gCanon;
static Expr* canonBool(Expr* e) {
  if (e->width != 1 || e->isConst() || !isByteCond(e)) return e;
  const Table& t = tableOf(e);
  if (t.none()) return mkConst(0, 1);
  if (t.all()) return mkConst(1, 1);
  CanonKey key{e->sup->v[0], t};
  auto it = gCanon.find(key);
  if (it != gCanon.end()) return it->second;
  gCanon[key] = e;
  return e;
}

static bool isBoolOp(Op op) { return op >= O_EQ && op <= O_SLE; }
static bool constLeaves2(Expr* e, int& budget) { // ITE tree with constant leaves, of bounded tree size
  if (e->isConst()) return true;
  if (e->op != O_ITE || --budget <= 0) return false;
  return constLeaves2(e->k[1], budget) && constLeaves2(e->k[2], budget);
}
static bool constLeaves(Expr* e, int) { int b = 400; return constLeaves2(e, b); }
// largest value an expression can take by shape (cheap upper bound)
static u128 ubound(Expr* e, int d = 6) {
  switch (e->op) {
    case O_CONST: return e->c;
    case O_ZEXT: return d ? ubound(e->k[0], d - 1) : maskW(e->k[0]->width);
    case O_AND: if (e->k[1]->isConst()) return e->k[1]->c; return maskW(e->width);
    case O_UREM: if (e->k[1]->isConst() && e->k[1]->c) return e->k[1]->c - 1; return maskW(e->width);
    case O_LSHR: if (e->k[1]->isConst() && e->k[1]->c < e->width) return maskW(e->width) >> (unsigned)e->k[1]->c; return maskW(e->width);
    case O_ITE: if (d) { u128 a = ubound(e->k[1], d - 1), b = ubound(e->k[2], d - 1); return a > b ? a : b; } return maskW(e->width);
    default: return maskW(e->width);
  }
}

Expr* mkNot(Expr* e) {
  if (e->isConst()) return mkConst(~e->c, e->width);
  if (e->op == O_XOR && e->k[1]->isConst() && e->k[1]->c == maskW(e->width)) return e->k[0];
  return canonBool(intern(O_XOR, 0, e->width, e, mkConst(~(u128)0, e->width), nullptr, 0));
}
static bool isNotOf(Expr* a, Expr* b) {
  if (a->op == O_XOR && a->k[1]->isConst() && a->k[1]->c == maskW(a->width) && a->k[0] == b) return true;
  if (b->op == O_XOR && b->k[1]->isConst() && b->k[1]->c == maskW(b->width) && b->k[0] == a) return true;
  return false;
}

static Expr* finish(Op op, unsigned w, Expr* a, Expr* b) { return canonBool(intern(op, 0, w, a, b, nullptr, 0)); }

Expr* mkBin(Op op, Expr* a, Expr* b) {
  unsigned w = a->width;
  if (a->width != b->width) { fprintf(stderr, "width mismatch op %d: %u %u\n", op, a->width, b->width); abort(); }
  unsigned rw = isBoolOp(op) ? 1 : w;
  if (a->isConst() && b->isConst()) return mkConst(foldBin(op, a->c, b->c, w), rw);
  bool comm = op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ;
  if (comm && (a->isConst() || (!b->isConst() && a->id > b->id))) std::swap(a, b);
  u128 m = maskW(w);
  switch (op) {
    case O_ADD:
      if (b->isConst()) {
        if (!b->c) return a;
        if (a->op == O_ADD && a->k[1]->isConst()) return mkBin(O_ADD, a->k[0], mkConst(a->k[1]->c + b->c, w));
        if (a->op == O_ITE && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkConst(a->k[1]->c + b->c, w), mkConst(a->k[2]->c + b->c, w));
      }
      break;
    case O_SUB:
      if (a == b) return mkConst(0, w);
      if (b->isConst()) return mkBin(O_ADD, a, mkConst(-b->c, w));
      break;
    case O_MUL:
      if (b->isConst()) { if (!b->c) return b; if (b->c == 1) return a;
        if (!(b->c & (b->c - 1))) { unsigned s = 0; while (!((b->c >> s) & 1)) s++; return mkBin(O_SHL, a, mkConst(s, w)); } }
      break;
    case O_UDIV:
      if (b->isConst()) { if (b->c == 1) return a; if (b->c && !(b->c & (b->c - 1))) { unsigned s = 0; while (!((b->c >> s) & 1)) s++; return mkBin(O_LSHR, a, mkConst(s, w)); }
        if (ubound(a) < b->c) return mkConst(0, w); }
      break;
    case O_UREM:
      if (b->isConst()) { if (b->c == 1) return mkConst(0, w); if (b->c && !(b->c & (b->c - 1))) { unsigned s = 0; while (!((b->c >> s) & 1)) s++; return mkZext(mkExtract(a, 0, s), w); }
        if (b->c && ubound(a) < b->c) return a; }
      break;
    case O_SDIV: if (b->isConst() && b->c == 1) return a; break;
    case O_SREM: if (b->isConst() && b->c == 1) return mkConst(0, w); break;
    case O_SHL:
      if (b->isConst()) { if (!b->c) return a; if (b->c >= w) return mkConst(0, w); unsigned s = (unsigned)b->c; return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s)); }
      break;
    case O_LSHR:
      if (b->isConst()) { if (!b->c) return a; if (b->c >= w) return mkConst(0, w); unsigned s = (unsigned)b->c; return mkZext(mkExtract(a, s, w - s), w); }
      break;
    case O_ASHR:
      if (b->isConst()) { if (!b->c) return a; unsigned s = b->c >= w ? w - 1 : (unsigned)b->c; return mkSext(mkExtract(a, s, w - s), w); }
      break;
    case O_AND:
      if (a == b) return a;
      if (b->isConst()) {
        if (!b->c) return b;
        if (b->c == m) return a;
        // contiguous low mask -> zext(extract)
        if (!((b->c + 1) & b->c)) { unsigned s = 0; while ((b->c >> s) & 1) s++; return mkZext(mkExtract(a, 0, s), w); }
      }
      if (w == 1) { if (isNotOf(a, b)) return mkConst(0, 1);
        if (a->op == O_AND && (a->k[0] == b || a->k[1] == b)) return a;
        if (b->op == O_AND && (b->k[0] == a || b->k[1] == a)) return b; }
      break;
    case O_OR:
      if (a == b) return a;
      if (b->isConst()) { if (!b->c) return a; if (b->c == m) return b; }
      if (w == 1) { if (isNotOf(a, b)) return mkConst(1, 1); 
        if (a->op == O_OR && (a->k[0] == b || a->k[1] == b)) return a;
        if (b->op == O_OR && (b->k[0] == a || b->k[1] == a)) return b; }
      else if (!b->isConst()) { // disjoint concat patterns (zext | shl) -> concat
        Expr* x = a; Expr* y = b;
        for (int t = 0; t < 2; t++, std::swap(x, y))
          if (x->op == O_CONCAT && x->k[1]->isConst() && !x->k[1]->c && y->op == O_ZEXT && y->k[0]->width <= x->k[1]->width)
            return mkConcat(x->k[0], mkZext(y->k[0], x->k[1]->width));
        for (int t = 0; t < 2; t++, std::swap(x, y))
          if (x->op == O_ZEXT && x->k[0]->op == O_CONCAT && x->k[0]->k[1]->isConst() && !x->k[0]->k[1]->c && y->op == O_ZEXT && y->k[0]->width <= x->k[0]->k[1]->width)
            return mkZext(mkConcat(x->k[0]->k[0], mkZext(y->k[0], x->k[0]->k[1]->width)), w);
      }
      break;
    case O_XOR:
      if (a == b) return mkConst(0, w);
      if (b->isConst()) { if (!b->c) return a; if (b->c == m) return mkNot(a); }
      break;
    case O_EQ:
      if (a == b) return mkConst(1, 1);
      if (w == 1) { if (b->isConst()) return b->c ? a : mkNot(a); return mkNot(mkBin(O_XOR, a, b)); }
      if (b->isConst()) {
        u128 c = b->c;
        switch (a->op) {
          case O_ITE:
            if (a->k[1]->isConst() || a->k[2]->isConst() || constLeaves(a, 24)) {
              Expr* x = mkEq(a->k[1], b); Expr* y = mkEq(a->k[2], b);
              return mkIte(a->k[0], x, y);
            }
            break;
          case O_ZEXT: if (c >> a->k[0]->width) return mkConst(0, 1); return mkEq(a->k[0], mkConst(c, a->k[0]->width));
          case O_SEXT: { u128 low = c & maskW(a->k[0]->width); if (((u128)sextW(low, a->k[0]->width) & m) != c) return mkConst(0, 1); return mkEq(a->k[0], mkConst(low, a->k[0]->width)); }
          case O_CONCAT: return mkAnd(mkEq(a->k[0], mkConst(c >> a->k[1]->width, a->k[0]->width)), mkEq(a->k[1], mkConst(c, a->k[1]->width)));
          case O_ADD: if (a->k[1]->isConst()) return mkEq(a->k[0], mkConst(c - a->k[1]->c, w)); break;
          case O_XOR: if (a->k[1]->isConst()) return mkEq(a->k[0], mkConst(c ^ a->k[1]->c, w)); break;
          default: break;
        }
      } else {
        if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->width == b->k[0]->width) return mkEq(a->k[0], b->k[0]);
        if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->width == b->k[0]->width) return mkEq(a->k[0], b->k[0]);
        if (a->op == O_CONCAT && b->op == O_CONCAT && a->k[1]->width == b->k[1]->width) return mkAnd(mkEq(a->k[0], b->k[0]), mkEq(a->k[1], b->k[1]));
        if (a->op == O_ADD && b->op == O_ADD && a->k[1] == b->k[1]) return mkEq(a->k[0], b->k[0]);
      }
      break;
    case O_ULT:
      if (a == b) return mkConst(0, 1);
      if (b->isConst()) { if (!b->c) return mkConst(0, 1); if (ubound(a) < b->c) return mkConst(1, 1); if (b->c == 1) return mkEq(a, mkConst(0, w)); }
      if (a->isConst()) { if (a->c == m) return mkConst(0, 1); if (ubound(b) <= a->c) return mkConst(0, 1); }
      if (w == 1) return mkAnd(mkNot(a), b);
      if (a->op == O_ZEXT && b->isConst()) return mkBin(O_ULT, a->k[0], mkConst(b->c, a->k[0]->width)); // b fits (ubound check above)
      if (b->op == O_ZEXT && a->isConst() && !(a->c >> b->k[0]->width)) return mkBin(O_ULT, mkConst(a->c, b->k[0]->width), b->k[0]);
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->width == b->k[0]->width) return mkBin(O_ULT, a->k[0], b->k[0]);
      if (b->isConst() && a->op == O_ITE && constLeaves(a, 24)) return mkIte(a->k[0], mkBin(O_ULT, a->k[1], b), mkBin(O_ULT, a->k[2], b));
      if (a->isConst() && b->op == O_ITE && constLeaves(b, 24)) return mkIte(b->k[0], mkBin(O_ULT, a, b->k[1]), mkBin(O_ULT, a, b->k[2]));
      break;
    case O_ULE: return mkNot(mkBin(O_ULT, b, a));
    case O_SLT:
      if (a == b) return mkConst(0, 1);
      if (a->op == O_ZEXT && b->isConst()) { if (sextW(b->c, w) < 0) return mkConst(0, 1); return mkBin(O_ULT, a, b); }
      if (b->op == O_ZEXT && a->isConst()) { if (sextW(a->c, w) < 0) return mkConst(1, 1); return mkBin(O_ULT, a, b); }
      if (a->op == O_ZEXT && b->op == O_ZEXT) return mkBin(O_ULT, a, b);
      if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->width == b->k[0]->width) return mkBin(O_SLT, a->k[0], b->k[0]);
      if (b->isConst() && a->op == O_ITE && constLeaves(a, 24)) return mkIte(a->k[0], mkBin(O_SLT, a->k[1], b), mkBin(O_SLT, a->k[2], b));
      if (a->isConst() && b->op == O_ITE && constLeaves(b, 24)) return mkIte(b->k[0], mkBin(O_SLT, a, b->k[1]), mkBin(O_SLT, a, b->k[2]));
      if (w == 1) return mkAnd(a, mkNot(b));
      break;
    case O_SLE: return mkNot(mkBin(O_SLT, b, a));
    default: break;
  }
  return finish(op, rw, a, b);
}

Expr* mkIte(Expr* c, Expr* a, Expr* b) {
  if (c->isConst()) return c->c ? a : b;
  if (a == b) return a;
  unsigned w = a->width;
  if (w != b->width) { fprintf(stderr, "ite width\n"); abort(); }
  if (c->op == O_XOR && c->k[1]->isConst() && c->k[1]->c == 1) return mkIte(c->k[0], b, a);
  if (w == 1) {
    if (a->isConst()) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (b->isConst()) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a);
    if (a == c) return mkOr(c, b);
    if (b == c) return mkAnd(c, a);
  }
  if (a->op == O_ITE && a->k[0] == c) a = a->k[1];
  if (b->op == O_ITE && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  if (b->op == O_ITE && b->k[1] == a) return mkIte(mkOr(c, b->k[0]), a, b->k[2]);
  if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->width == b->k[0]->width) return mkZext(mkIte(c, a->k[0], b->k[0]), w);
  return canonBool(intern(O_ITE, 0, w, c, a, b, 0));
}

static Expr* mkExtract2(Expr* e, unsigned off, unsigned w);
static std::unordered_map<u64, Expr*> gExtractMemo;
Expr* mkExtract(Expr* e, unsigned off, unsigned w) {
  if (off == 0 && w == e->width) return e;
  if (e->op < O_ADD || e->op > O_XOR) return mkExtract2(e, off, w);
  u64 key = ((u64)e->id << 16) | (off << 8) | w;
  auto it = gExtractMemo.find(key);
  if (it != gExtractMemo.end()) return it->second;
  Expr* r = mkExtract2(e, off, w);
  gExtractMemo[key] = r;
  return r;
}
static Expr* mkExtract2(Expr* e, unsigned off, unsigned w) {
  if (off + w > e->width) { fprintf(stderr, "bad extract\n"); abort(); }
  switch (e->op) {
    case O_CONST: return mkConst(e->c >> off, w);
    case O_EXTRACT: return mkExtract(e->k[0], (unsigned)e->c + off, w);
    case O_CONCAT: {
      unsigned lw = e->k[1]->width;
      if (off + w <= lw) return mkExtract(e->k[1], off, w);
      if (off >= lw) return mkExtract(e->k[0], off - lw, w);
      return mkConcat(mkExtract(e->k[0], 0, off + w - lw), mkExtract(e->k[1], off, lw - off));
    }
    case O_ZEXT: {
      unsigned iw = e->k[0]->width;
      if (off >= iw) return mkConst(0, w);
      if (off + w <= iw) return mkExtract(e->k[0], off, w);
      return mkZext(mkExtract(e->k[0], off, iw - off), w);
    }
    case O_SEXT: {
      unsigned iw = e->k[0]->width;
      if (off + w <= iw) return mkExtract(e->k[0], off, w);
      if (off < iw) return mkSext(mkExtract(e->k[0], off, iw - off), w);
      return mkSext(mkExtract(e->k[0], iw - 1, 1), w);
    }
    case O_ITE: if (e->k[1]->isConst() || e->k[2]->isConst()) return mkIte(e->k[0], mkExtract(e->k[1], off, w), mkExtract(e->k[2], off, w)); break;
    case O_AND: case O_OR: case O_XOR: return mkBin(e->op, mkExtract(e->k[0], off, w), mkExtract(e->k[1], off, w));
    case O_ADD: case O_SUB: case O_MUL: if (off == 0 && (w >= 32 || w < 8 || e->sup->v.size() <= 1)) return mkBin(e->op, mkExtract(e->k[0], 0, w), mkExtract(e->k[1], 0, w)); break;
    default: break;
  }
  return canonBool(intern(O_EXTRACT, 0, w, e, nullptr, nullptr, off));
}
Expr* mkConcat(Expr* hi, Expr* lo) {
  unsigned w = hi->width + lo->width;
  if (hi->isConst() && lo->isConst()) return mkConst((hi->c << lo->width) | lo->c, w);
  if (hi->isConst() && !hi->c) return mkZext(lo, w);
  if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->k[0] == lo->k[0] && hi->c == lo->c + lo->width) return mkExtract(hi->k[0], (unsigned)lo->c, w);
  if (hi->op == O_EXTRACT && hi->k[0] == lo && hi->c == lo->width) {} // not adjacent
  // right-assoc merging: concat(x, concat(extract a, b))
  if (lo->op == O_CONCAT && hi->op == O_EXTRACT && lo->k[0]->op == O_EXTRACT && hi->k[0] == lo->k[0]->k[0] && hi->c == lo->k[0]->c + lo->k[0]->width)
    return mkConcat(mkExtract(hi->k[0], (unsigned)lo->k[0]->c, hi->width + lo->k[0]->width), lo->k[1]);
  if (hi->isConst() && lo->op == O_CONCAT && lo->k[0]->isConst()) return mkConcat(mkConst((hi->c << lo->k[0]->width) | lo->k[0]->c, hi->width + lo->k[0]->width), lo->k[1]);
  if (hi->op == O_CONCAT && hi->k[1]->isConst() && lo->isConst()) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
  return intern(O_CONCAT, 0, w, hi, lo, nullptr, 0);
}
Expr* mkZext(Expr* e, unsigned w) {
  if (w == e->width) return e;
  if (e->isConst()) return mkConst(e->c, w);
  if (e->op == O_ZEXT) return mkZext(e->k[0], w);
  return intern(O_ZEXT, 0, w, e, nullptr, nullptr, 0);
}
Expr* mkSext(Expr* e, unsigned w) {
  if (w == e->width) return e;
  if (e->isConst()) return mkConst((u128)sextW(e->c, e->width), w);
  if (e->op == O_SEXT) return mkSext(e->k[0], w);
  if (e->op == O_ZEXT) return mkZext(e->k[0], w);
  return intern(O_SEXT, 0, w, e, nullptr, nullptr, 0);
}
Expr* mkFcmp(unsigned pred, unsigned kind, Expr* a, Expr* b) {
  if (pred == 0) return mkConst(0, 1);
  if (pred == 15) return mkConst(1, 1);
  if (a->isConst() && b->isConst()) return mkConst(foldFcmp(pred, kind, a->c, b->c), 1);
  return canonBool(intern(O_FCMP, kind, 1, a, b, nullptr, pred));
}
Expr* mkFbin(Op op, unsigned kind, Expr* a, Expr* b) {
  if (a->isConst() && b->isConst()) return mkConst(foldFbin(op, kind, a->c, b->c), fwidth(kind));
  return intern(op, kind, fwidth(kind), a, b, nullptr, 0);
}
Expr* mkFcast(unsigned from, unsigned to, Expr* a) {
  if (from == to) return a;
  if (a->isConst()) return mkConst(foldFcast(from, to, a->c), fwidth(to));
  return intern(O_FPCAST, from * 4 + to, fwidth(to), a, nullptr, nullptr, 0);
}
Expr* mkI2F(Op op, unsigned kind, Expr* a) {
  if (a->isConst()) return mkConst(foldI2F(op, kind, a->c, a->width), fwidth(kind));
  return intern(op, kind, fwidth(kind), a, nullptr, nullptr, 0);
}
Expr* mkF2I(Op op, unsigned kind, unsigned w, Expr* a) {
  if (a->isConst()) return mkConst(foldF2I(op, kind, a->c, w), w);
  return intern(op, kind, w, a, nullptr, nullptr, 0);
}

// ---------------------------------------------------------------- z3 translation
static Z3_ast zc(Z3_context c, u128 v, unsigned w) {
  if (w <= 64) return Z3_mk_unsigned_int64(c, (u64)v, Z3_mk_bv_sort(c, w));
  Z3_ast hi = Z3_mk_unsigned_int64(c, (u64)(v >> 64), Z3_mk_bv_sort(c, w - 64));
  Z3_ast lo = Z3_mk_unsigned_int64(c, (u64)v, Z3_mk_bv_sort(c, 64));
  return Z3_mk_concat(c, hi, lo);
}
static Z3_ast keep(Z3_context c, Z3_ast a) { Z3_inc_ref(c, a); return a; }
static Z3_sort fsort(Z3_context c, unsigned kind) { return kind == 0 ? Z3_mk_fpa_sort(c, 8, 24) : kind == 1 ? Z3_mk_fpa_sort(c, 11, 53) : Z3_mk_fpa_sort(c, 15, 64); }
static Z3_ast bv2fp(Z3_context c, unsigned kind, Expr* e) {
  Z3_ast b = toBV(c, e);
  if (kind == 2) { // x87: sign(1) exp(15) explicit integer bit, fraction(63); the harness restricts to canonical encodings
    Z3_ast se = Z3_mk_extract(c, 79, 64, b), fr = Z3_mk_extract(c, 62, 0, b);
    return Z3_mk_fpa_to_fp_bv(c, Z3_mk_concat(c, se, fr), fsort(c, 2));
  }
  return Z3_mk_fpa_to_fp_bv(c, b, fsort(c, kind));
}
static Z3_ast fp2bv(Z3_context c, unsigned kind, Z3_ast f) {
  Z3_ast b = Z3_mk_fpa_to_ieee_bv(c, f);
  if (kind != 2) return b;
  // integer bit = exponent nonzero
  Z3_ast se = Z3_mk_extract(c, 78, 63, b), fr = Z3_mk_extract(c, 62, 0, b), ex = Z3_mk_extract(c, 77, 63, b);
  Z3_ast nz = Z3_mk_ite(c, Z3_mk_eq(c, ex, zc(c, 0, 15)), zc(c, 0, 1), zc(c, 1, 1));
  return Z3_mk_concat(c, se, Z3_mk_concat(c, nz, fr));
}
Z3_ast toBool(Z3_context c, Expr* e) {
  if (e->zbool) return e->zbool;
  Z3_ast r;
  if (e->width != 1) { fprintf(stderr, "toBool width\n"); abort(); }
  switch (e->op) {
    case O_CONST: r = e->c ? Z3_mk_true(c) : Z3_mk_false(c); break;
    case O_AND: { Z3_ast x[2] = {toBool(c, e->k[0]), toBool(c, e->k[1])}; r = Z3_mk_and(c, 2, x); break; }
    case O_OR: { Z3_ast x[2] = {toBool(c, e->k[0]), toBool(c, e->k[1])}; r = Z3_mk_or(c, 2, x); break; }
    case O_XOR: if (e->k[1]->isConst() && e->k[1]->c) r = Z3_mk_not(c, toBool(c, e->k[0])); else r = Z3_mk_xor(c, toBool(c, e->k[0]), toBool(c, e->k[1])); break;
    case O_ITE: r = Z3_mk_ite(c, toBool(c, e->k[0]), toBool(c, e->k[1]), toBool(c, e->k[2])); break;
    case O_EQ: if (e->k[0]->width == 1) r = Z3_mk_iff(c, toBool(c, e->k[0]), toBool(c, e->k[1])); else r = Z3_mk_eq(c, toBV(c, e->k[0]), toBV(c, e->k[1])); break;
    case O_ULT: r = Z3_mk_bvult(c, toBV(c, e->k[0]), toBV(c, e->k[1])); break;
    case O_ULE: r = Z3_mk_bvule(c, toBV(c, e->k[0]), toBV(c, e->k[1])); break;
    case O_SLT: r = Z3_mk_bvslt(c, toBV(c, e->k[0]), toBV(c, e->k[1])); break;
    case O_SLE: r = Z3_mk_bvsle(c, toBV(c, e->k[0]), toBV(c, e->k[1])); break;
    case O_FCMP: {
      Z3_ast a = bv2fp(c, e->aux, e->k[0]), b = bv2fp(c, e->aux, e->k[1]);
      unsigned p = (unsigned)e->c; std::vector<Z3_ast> o;
      Z3_ast nan[2] = {Z3_mk_fpa_is_nan(c, a), Z3_mk_fpa_is_nan(c, b)};
      if (p & 8) o.push_back(Z3_mk_or(c, 2, nan));
      if (p & 1) o.push_back(Z3_mk_fpa_eq(c, a, b));
      if (p & 2) o.push_back(Z3_mk_fpa_gt(c, a, b));
      if (p & 4) o.push_back(Z3_mk_fpa_lt(c, a, b));
      r = Z3_mk_or(c, o.size(), o.data()); break;
    }
    default: r = Z3_mk_eq(c, toBV(c, e), zc(c, 1, 1)); break;
  }
  return e->zbool = keep(c, r);
}
Z3_ast toBV(Z3_context c, Expr* e) {
  if (e->zbv) return e->zbv;
  Z3_ast r;
  auto K = [&](int i) { return toBV(c, e->k[i]); };
  switch (e->op) {
    case O_CONST: r = zc(c, e->c, e->width); break;
    case O_VAR: { std::string n = "v" + std::to_string((u64)e->c); r = Z3_mk_const(c, Z3_mk_string_symbol(c, n.c_str()), Z3_mk_bv_sort(c, e->width)); break; }
    case O_ADD: r = Z3_mk_bvadd(c, K(0), K(1)); break;
    case O_SUB: r = Z3_mk_bvsub(c, K(0), K(1)); break;
    case O_MUL: r = Z3_mk_bvmul(c, K(0), K(1)); break;
    case O_UDIV: r = Z3_mk_bvudiv(c, K(0), K(1)); break;
    case O_SDIV: r = Z3_mk_bvsdiv(c, K(0), K(1)); break;
    case O_UREM: r = Z3_mk_bvurem(c, K(0), K(1)); break;
    case O_SREM: r = Z3_mk_bvsrem(c, K(0), K(1)); break;
    case O_SHL: r = Z3_mk_bvshl(c, K(0), K(1)); break;
    case O_LSHR: r = Z3_mk_bvlshr(c, K(0), K(1)); break;
    case O_ASHR: r = Z3_mk_bvashr(c, K(0), K(1)); break;
    case O_AND: case O_OR: case O_XOR:
      if (e->width == 1) { r = Z3_mk_ite(c, toBool(c, e), zc(c, 1, 1), zc(c, 0, 1)); break; }
      r = e->op == O_AND ? Z3_mk_bvand(c, K(0), K(1)) : e->op == O_OR ? Z3_mk_bvor(c, K(0), K(1)) : Z3_mk_bvxor(c, K(0), K(1)); break;
    case O_EQ: case O_ULT: case O_ULE: case O_SLT: case O_SLE: case O_FCMP: r = Z3_mk_ite(c, toBool(c, e), zc(c, 1, 1), zc(c, 0, 1)); break;
    case O_ITE: r = Z3_mk_ite(c, toBool(c, e->k[0]), K(1), K(2)); break;
    case O_CONCAT: r = Z3_mk_concat(c, K(0), K(1)); break;
    case O_EXTRACT: r = Z3_mk_extract(c, (unsigned)e->c + e->width - 1, (unsigned)e->c, K(0)); break;
    case O_ZEXT: r = Z3_mk_zero_ext(c, e->width - e->k[0]->width, K(0)); break;
    case O_SEXT: r = Z3_mk_sign_ext(c, e->width - e->k[0]->width, K(0)); break;
    case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: {
      Z3_ast rm = Z3_mk_fpa_rne(c), a = bv2fp(c, e->aux, e->k[0]), b = bv2fp(c, e->aux, e->k[1]);
      Z3_ast f = e->op == O_FADD ? Z3_mk_fpa_add(c, rm, a, b) : e->op == O_FSUB ? Z3_mk_fpa_sub(c, rm, a, b) : e->op == O_FMUL ? Z3_mk_fpa_mul(c, rm, a, b) : Z3_mk_fpa_div(c, rm, a, b);
      r = fp2bv(c, e->aux, f); break; }
    case O_FPCAST: r = fp2bv(c, e->aux & 3, Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), bv2fp(c, e->aux >> 2, e->k[0]), fsort(c, e->aux & 3))); break;
    case O_SI2FP: r = fp2bv(c, e->aux, Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), K(0), fsort(c, e->aux))); break;
    case O_UI2FP: r = fp2bv(c, e->aux, Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), K(0), fsort(c, e->aux))); break;
    case O_FP2SI: r = Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), bv2fp(c, e->aux, e->k[0]), e->width); break;
    case O_FP2UI: r = Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), bv2fp(c, e->aux, e->k[0]), e->width); break;
    default: fprintf(stderr, "toBV op %d\n", e->op); abort();
  }
  return e->zbv = keep(c, r);
}

std::string exprStr(Expr* e, int d) {
  static const char* n[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","shl","lshr","ashr","and","or","xor","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","fcmp","fadd","fsub","fmul","fdiv","fpcast","si2fp","ui2fp","fp2si","fp2ui"};
  if (e->isConst()) return std::to_string((u64)e->c);
  if (e->op == O_VAR) return gVars[(u64)e->c].name + "#" + std::to_string((u64)e->c);
  if (d <= 0) return "..";
  std::string s = std::string("(") + n[e->op];
  if (e->op == O_EXTRACT) s += "@" + std::to_string((u64)e->c) + ":" + std::to_string(e->width);
  for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + exprStr(e->k[i], d - 1);
  return s + ")";
}
