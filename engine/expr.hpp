// Hash-consed bit-vector expressions (width 1..128; booleans are width 1).
#pragma once
#include <z3.h>
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <algorithm>
#include <array>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef int64_t i64;
typedef unsigned __int128 u128;
typedef __int128 i128;

enum Op : u8 {
  O_CONST, O_VAR,
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_SHL, O_LSHR, O_ASHR, O_AND, O_OR, O_XOR,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
  O_ITE, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT,
  // floating point (operands are bit patterns); aux = kind (0 f32, 1 f64, 2 x87 f80)
  O_FCMP, O_FADD, O_FSUB, O_FMUL, O_FDIV,
  O_FPCAST, // aux = from*4+to
  O_SI2FP, O_UI2FP, O_FP2SI, O_FP2UI, // aux = kind
};
// FCMP aux2 (stored in lo): llvm predicate 0..15

static inline u128 maskW(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sextW(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 s = (u128)1 << (w - 1);
  v &= maskW(w);
  return (i128)((v ^ s) - s);
}

struct Support {
  std::vector<u32> v; // sorted
  bool uninit = false;
};

struct Table { u64 w[4]; 
  bool none() const { return !(w[0] | w[1] | w[2] | w[3]); }
  bool all() const { return !~(w[0] & w[1] & w[2] & w[3]); }
  bool get(unsigned i) const { return (w[i >> 6] >> (i & 63)) & 1; }
  void set(unsigned i) { w[i >> 6] |= 1ull << (i & 63); }
  unsigned count() const { return __builtin_popcountll(w[0]) + __builtin_popcountll(w[1]) + __builtin_popcountll(w[2]) + __builtin_popcountll(w[3]); }
  int first() const { for (int i = 0; i < 4; i++) if (w[i]) return i * 64 + __builtin_ctzll(w[i]); return -1; }
  bool operator==(Table const& o) const { return !memcmp(w, o.w, 32); }
};
static inline Table tAnd(Table a, Table const& b) { for (int i = 0; i < 4; i++) a.w[i] &= b.w[i]; return a; }
static inline Table tAndN(Table a, Table const& b) { for (int i = 0; i < 4; i++) a.w[i] &= ~b.w[i]; return a; }

struct Expr {
  Op op; u8 aux; unsigned short width;
  u32 id;
  Expr* k[3];
  u128 c;      // constant value / var id / extract offset / fcmp predicate
  const Support* sup;
  u64 epoch = 0; u128 ev = 0;
  Table* table = nullptr; // for width 1, single 8-bit variable
  Z3_ast zbv = nullptr, zbool = nullptr;
  bool isConst() const { return op == O_CONST; }
};

struct VarInfo { std::string name; unsigned width; bool uninit; Expr* e; };

struct Model; // vector of values

typedef std::vector<u64> VarVals;

void exprInit();
extern std::vector<VarInfo> gVars;
extern u64 gExprCount;

Expr* mkConst(u128 v, unsigned w);
Expr* mkVar(u32 idx, unsigned w, bool uninit, const std::string& name);
Expr* mkBin(Op op, Expr* a, Expr* b);
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkExtract(Expr* e, unsigned off, unsigned w);
Expr* mkZext(Expr* e, unsigned w);
Expr* mkSext(Expr* e, unsigned w);
Expr* mkNot(Expr* e); // width 1 logical not (or bitwise)
Expr* mkFcmp(unsigned pred, unsigned kind, Expr* a, Expr* b);
Expr* mkFbin(Op op, unsigned kind, Expr* a, Expr* b);
Expr* mkFcast(unsigned from, unsigned to, Expr* a);
Expr* mkI2F(Op op, unsigned kind, Expr* a);
Expr* mkF2I(Op op, unsigned kind, unsigned w, Expr* a);
static inline Expr* mkAnd(Expr* a, Expr* b) { return mkBin(O_AND, a, b); }
static inline Expr* mkOr(Expr* a, Expr* b) { return mkBin(O_OR, a, b); }
static inline Expr* mkEq(Expr* a, Expr* b) { return mkBin(O_EQ, a, b); }

u128 evalExpr(Expr* e, const VarVals& m); // starts a new epoch
const Table& tableOf(Expr* e);            // width 1, single 8-bit var
bool isByteCond(Expr* e);                 // support is one 8-bit variable
u128 evalByte(Expr* e, unsigned value);   // expression over one 8-bit variable

u128 foldBin(Op op, u128 a, u128 b, unsigned w);
bool foldFcmp(unsigned pred, unsigned kind, u128 a, u128 b);
u128 foldFbin(Op op, unsigned kind, u128 a, u128 b);
u128 foldFcast(unsigned from, unsigned to, u128 a);
u128 foldI2F(Op op, unsigned kind, u128 a, unsigned w);
u128 foldF2I(Op op, unsigned kind, u128 a, unsigned w);
static inline unsigned fwidth(unsigned kind) { return kind == 0 ? 32 : kind == 1 ? 64 : 80; }

Z3_ast toBool(Z3_context ctx, Expr* e);
Z3_ast toBV(Z3_context ctx, Expr* e);
std::string exprStr(Expr* e, int depth = 6);
