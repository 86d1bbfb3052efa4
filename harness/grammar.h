// The command-line grammar, written down independently of coil's lexer.
// Everything is expressed as (offset, length) into the line.
#pragma once
#include "common.h"
struct Delims { const char* group; size_t ng; const char* quote; size_t nq; const char* sep; size_t ns; const char* space; size_t nsp; };
static const Delims DEFAULT_DELIMS = {"()", 2, "'\"", 2, ",;|", 3, " \t\n\r", 4};
enum { C_ASSIGN, C_SPACE, C_GROUP, C_QUOTE, C_TEXT };
static int inSet(const char* s, size_t n, char c) { int r = 0; for (size_t i = 0; i < n; i++) r |= (s[i] == c); return r; }
static int cls(const Delims& d, char c) {
  if (c == '=') return C_ASSIGN;
  if (inSet(d.space, d.nsp, c)) return C_SPACE;
  if (inSet(d.group, d.ng, c)) return C_GROUP;
  if (inSet(d.quote, d.nq, c)) return C_QUOTE;
  return C_TEXT;
}
static int isSep(const Delims& d, char c) { return inSet(d.sep, d.ns, c) | inSet(d.space, d.nsp, c); }
static int isQuo(const Delims& d, char c) { return inSet(d.quote, d.nq, c); }
struct Span { int off, len; };
struct RVal { int n; Span* s; };
enum { T_TEXT, T_COMPOUND, T_EQ };
struct RTok { int kind; Span s; };
enum RErr { R_OK, R_UNCLOSED_QUOTE, R_UNCLOSED_GROUP, R_BAD_START, R_NO_KEY, R_DOUBLE_EQ, R_NO_VALUE };
struct RParse {
  int err; int errTok;              // errTok: offset (unclosed) or token index (bad start)
  int nt; RTok t[1000];
  bool empty; Span name; int na; RVal a[700]; int nn; Span key[700]; RVal v[700];
  int np; Span pool[4000];           // the subvalues
};
// a compound's text is a list: separators (or white space) divide it, a quote character toggles "inside
// quotes" where separators do not divide, and an element both beginning and ending with a quote loses them.
static void refSplit(const Delims& d, const char* s, Span g, RVal& out, RParse& r) {
  out.n = 0; out.s = r.pool + r.np; int i = g.off, e = g.off + g.len;
  for (;;) {
    while (i < e && isSep(d, s[i])) i++;
    if (i >= e) return;
    int b = i; int q = 0;
    while (i < e) { if (!q && isSep(d, s[i])) break; if (isQuo(d, s[i])) q = !q; i++; }
    int len = i - b;
    if (len >= 2 && isQuo(d, s[b]) && isQuo(d, s[i - 1])) { b++; len -= 2; }
    out.s[out.n].off = b; out.s[out.n].len = len; out.n++; r.np++;
  }
}
static void refValue(const Delims& d, const char* s, const RTok& t, RVal& out, RParse& r) {
  if (t.kind == T_COMPOUND) refSplit(d, s, t.s, out, r); else { out.n = 1; out.s = r.pool + r.np++; out.s[0] = t.s; }
}
static void refParse(const Delims& d, const char* s, int n, RParse& r) {
  r.err = R_OK; r.nt = 0; r.na = 0; r.nn = 0; r.np = 0; r.empty = true; r.name = {0, 0};
  for (int i = 0; i < n;) {
    int c = cls(d, s[i]);
    if (c == C_SPACE) { i++; continue; }
    RTok& t = r.t[r.nt];
    if (c == C_ASSIGN) { t = {T_EQ, {i, 1}}; r.nt++; i++; continue; }
    if (c == C_TEXT) {
      int b = i; i++; int comp = 0;
      while (i < n && cls(d, s[i]) == C_TEXT) { if (isSep(d, s[i])) comp = 1; i++; }
      t = {comp ? T_COMPOUND : T_TEXT, {b, i - b}}; r.nt++; continue;
    }
    int b = ++i; while (i < n && cls(d, s[i]) != c) i++;
    if (i >= n) { r.err = c == C_QUOTE ? R_UNCLOSED_QUOTE : R_UNCLOSED_GROUP; r.errTok = b - 1; return; }
    t = {c == C_QUOTE ? T_TEXT : T_COMPOUND, {b, i - b}}; r.nt++; i++;
  }
  if (r.nt == 0) return;
  if (r.t[0].kind != T_TEXT) { r.err = R_BAD_START; r.errTok = 0; return; }
  r.empty = false; r.name = r.t[0].s;
  for (int i = 1; i < r.nt; i++) {
    if (r.t[i].kind == T_EQ) { r.err = R_NO_KEY; return; }            // nothing to the left that could be a key
    if (i + 1 < r.nt && r.t[i + 1].kind == T_EQ) {
      if (i + 2 >= r.nt) { r.err = R_NO_VALUE; return; }
      if (r.t[i + 2].kind == T_EQ) { r.err = R_DOUBLE_EQ; return; }
      r.key[r.nn] = r.t[i].s; refValue(d, s, r.t[i + 2], r.v[r.nn], r); r.nn++; i += 2;
    } else { refValue(d, s, r.t[i], r.a[r.na], r); r.na++; }
  }
}
static inline bool spanIs(StringView v, const char* base, Span s) { return v.length() == (size_t)s.len && v.data() == base + s.off; }
static inline bool valueIs(Value const& v, const char* base, RVal const& r) {
  if (v.subvalues.size() != (size_t)r.n) return false;
  for (int i = 0; i < r.n; i++) if (!spanIs(v.subvalues[i], base, r.s[i])) return false;
  return true;
}
static inline void refMessage(const char* s, RParse const& r, Txt& m) {
  switch (r.err) {
    case R_UNCLOSED_QUOTE: m.add("Token '").ch(s[r.errTok]).add("' doesn't have a corresponding opening/closing quote"); break;
    case R_UNCLOSED_GROUP: m.add("Token '").ch(s[r.errTok]).add("' doesn't have a corresponding opening/closing token"); break;
    case R_BAD_START: m.add("Unexpected token '").add(s + r.t[0].s.off, r.t[0].s.len).add("' at the beginning of the expression"); break;
    case R_NO_KEY: m.add("Unexpected token '=': no name for the named argument is provided"); break;
    case R_DOUBLE_EQ: m.add("Expected an argument value, found '='"); break;
    case R_NO_VALUE: m.add("Expected an argument value, found end of string"); break;
  }
}
// K arguments, each of any well-formed shape, then any kind of ending
static inline void argForm(Txt& t, uint32_t form) {
  auto text = [&](int n) { char c[3]; sym_bytes(c, n, "text"); for (int i = 0; i < n; i++) sym_assume((cls(DEFAULT_DELIMS, c[i]) == C_TEXT) & !isSep(DEFAULT_DELIMS, c[i])); t.add(c, n); };
  auto blank = [&] { char c; sym_bytes(&c, 1, "blank"); sym_assume(inSet(DEFAULT_DELIMS.space, 4, c)); t.ch(c); };
  switch (form) {
    case 0: break; case 1: text(1); break; case 2: t.add("''"); break; case 3: t.add("()"); break; case 4: t.ch('('); text(1); blank(); text(2); t.ch(')'); break; case 5: text(1); t.ch(','); t.ch(','); text(1); break;
  }
}
static inline void argLine(Txt& t, size_t k) {
  const size_t F = 5; t.add("f");
  for (size_t i = 0; i < k; i++) { t.ch(' '); uint32_t key = sym_choice(3, "key"); if (key) { argForm(t, key == 1 ? 1 : 2); t.ch('='); } argForm(t, 1 + sym_choice((uint32_t)F, "form")); }
  switch (sym_choice(8, "end")) { case 1: t.ch(' '); argForm(t, 1); t.ch('='); break; case 2: t.add(" ="); argForm(t, 1); break; case 3: t.add(" '"); argForm(t, 1); break; case 4: t.add(" ("); argForm(t, 1); break; case 5: t.add(" k=(x)="); argForm(t, 1); break; case 6: t.add("= "); break; case 7: t.add(" () = 2"); break; }
}
