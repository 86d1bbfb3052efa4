// sizes: the same guarantees for long texts and large counts; the bytes are symbolic, the shape is chosen
#include "values.h"
#include "grammar.h"
#include "coil/detail/Expected.h"
#include "coil/detail/Lexer.h"
#include <errno.h>
#include <stdexcept>
using coil::DefaultLexer; using coil::ExecutionInput; using coil::ExecutionResult; using coil::NamedArgs; using coil::NamedValue; using coil::overloaded; typedef NamedArgs::ArgType AT;

static char gBuf[70000]; static size_t gN;
static void put(const char* s) { while (*s) gBuf[gN++] = *s++; }
static void plain(size_t k) { sym_bytes(gBuf + gN, k, "text"); for (size_t i = 0; i < k; i++) { char c = gBuf[gN + i]; sym_assume((cls(DEFAULT_DELIMS, c) == C_TEXT) & !isSep(DEFAULT_DELIMS, c) & (c != 0)); } gN += k; }
static void blanks(size_t k) { sym_bytes(gBuf + gN, k, "blank"); for (size_t i = 0; i < k; i++) sym_assume(inSet(DEFAULT_DELIMS.space, 4, gBuf[gN + i])); gN += k; }
static void nonQuote(size_t k) { sym_bytes(gBuf + gN, k, "quoted"); for (size_t i = 0; i < k; i++) sym_assume(!inSet(DEFAULT_DELIMS.quote, 2, gBuf[gN + i])); gN += k; }
static void separator() { sym_bytes(gBuf + gN, 1, "sep"); sym_assume(isSep(DEFAULT_DELIMS, gBuf[gN])); gN++; }
static void hardSeparator() { sym_bytes(gBuf + gN, 1, "sep"); sym_assume(inSet(DEFAULT_DELIMS.sep, 3, gBuf[gN])); gN++; }
static uint32_t pick(uint32_t n, const char* what, const char* param) { uint32_t v = (uint32_t)sym_param(param, 99); return v != 99 ? v : sym_choice(n, what); }
struct Size { int P, L, E, W; };
static const Size SIZES[] = {{1, 1, 2, 1}, {1, 300, 2, 1}, {1, 2, 70, 1}, {10, 3, 3, 1}, {17, 2, 9, 1}, {33, 1, 2, 1}, {70, 1, 1, 2}, {130, 1, 1, 1}, {2, 20, 20, 40}, {3, 1, 5, 300}, {1, 1100, 1, 1}, {5, 65, 4, 1}, {300, 1, 1, 1}, {1, 1, 300, 1}, {1, 4200, 1, 1}};
enum { NSIZES = sizeof SIZES / sizeof *SIZES, KINDS = 12, ENDS = 9 };
static void token(uint32_t kind, Size z) {
  switch (kind) {
    case 0: plain(z.L); break;
    case 1: put("'"); nonQuote(z.L); put("'"); break;
    case 2: put("\""); nonQuote(z.L); put("\""); break;
    case 3: for (int e = 0; e < z.E; e++) { if (e) hardSeparator(); plain(z.L); } break;
    case 4: put("("); for (int e = 0; e < z.E; e++) { if (e) separator(); plain(z.L); } put(")"); break;
    case 5: put("("); for (int e = 0; e < z.E; e++) { if (e) separator(); put("'"); plain(z.L); separator(); plain(1); put("\""); } put(")"); break;
    case 6: plain(z.L); put("="); plain(z.L); break;
    case 7: plain(1); blanks(z.W); put("="); blanks(z.W); put("'"); nonQuote(z.L); put("'"); break;
    case 8: put("'"); nonQuote(z.L); put("'=("); for (int e = 0; e < z.E; e++) { if (e) separator(); plain(z.L); } put(")"); break;
    case 9: put("''"); break;
    case 10: put("()"); break;
  }
}
// writes a line of the chosen shape; the name is "f" unless it is the offence itself
static void makeLine(uint32_t kind, Size z, uint32_t end) {
  gN = 0; if (end == 7) { blanks(z.W); put("("); for (int e = 0; e < z.E; e++) { if (e) separator(); plain(z.L); } put(") "); } put("f");
  for (int i = 0; i < z.P; i++) { blanks(z.W); token(kind == 11 ? (uint32_t)(i % 11) : kind, z); if (i == z.P / 2) { if (end == 4) put(" = = 'x y' "); if (end == 8) put(" k=1 = 2"); } }
  switch (end) { case 1: blanks(z.W); break; case 2: put(" '"); plain(z.L); break; case 3: put(" (a '"); plain(z.L); break; case 5: blanks(z.W); plain(z.L); put("="); blanks(z.W); break; case 6: put(" k=="); plain(z.L); break; }
}
static bool fits(uint32_t kind, Size z) { size_t per = (size_t)z.W * 2 + 8 + (size_t)(z.L + 6) * (size_t)(kind >= 3 && kind != 6 && kind != 7 ? z.E : 2) * 2; return per * (size_t)z.P < 30000; }
static char* exact() { char* p = (char*)malloc(gN ? gN : 1); memcpy(p, gBuf, gN); return p; }

// C02 C04: the parser
extern "C" void check_long_lex() {
  uint32_t kind = pick(KINDS, "kind", "X"), end = pick(ENDS, "end", "E"); Size z = SIZES[pick(NSIZES - 1, "size", "S")]; if (!fits(kind, z)) return; makeLine(kind, z, end); char* p = exact(); size_t n = gN;
  { static RParse r; refParse(DEFAULT_DELIMS, p, (int)n, r); DefaultLexer lexer; auto got = lexer.parse(StringView{p, n}); CHECKM(bytesEq(p, gBuf, n), "parsing does not modify the text"); CHECKM(got.hasValue() == (r.err == R_OK), "accepted exactly when the grammar says so");
    if (!got && r.err) { Txt m; refMessage(p, r, m); CHECKM(strIs(got.error(), m), "the error message describes the first offence"); sym_reach("rejected"); }
    if (got && !r.err) { sym_reach("parsed"); CHECKM(spanIs(got->name, p, r.name) && got->arguments.size() == (size_t)r.na && got->namedArguments.size() == (size_t)r.nn, "name and argument counts"); if (got->arguments.size() == (size_t)r.na && got->namedArguments.size() == (size_t)r.nn) {
      for (int i = 0; i < r.na; i++) CHECKM(valueIs(got->arguments[i], p, r.a[i]), "positional argument value"); for (int i = 0; i < r.nn; i++) { CHECKM(spanIs(got->namedArguments[i].key, p, r.key[i]), "named argument key"); CHECKM(valueIs(got->namedArguments[i].value, p, r.v[i]), "named argument value"); } } } }
  free(p);
}
// C01 C03 C07 C09: execution of such lines
extern "C" void check_long_exec() {
  uint32_t kind = pick(KINDS, "kind", "X"), end = pick(ENDS, "end", "E"); Size z = SIZES[pick(NSIZES - 1, "size", "S")]; if (!fits(kind, z)) return; makeLine(kind, z, end); char* p = exact(); size_t n = gN;
  { static RParse r; refParse(DEFAULT_DELIMS, p, (int)n, r); int ran = 0; size_t seen = 0; Bindings b; b["f"] = overloaded([&](Context c) { ran++; seen = c.namedArgs().size(); return 0; }, [&](Value v) { ran++; return (int)v.subvalues.size(); }, [&](Value, StringView) { ran++; return 2; }, [&](Value, Value, Value) { ran++; return 3; });
    auto x = b.execute(StringView{p, n});
    if (r.err) { Txt m("Syntax error: "); refMessage(p, r, m); CHECKM(ran == 0 && x.errors.size() == 1 && strIs(x.errors[0], m) && x.output.empty() && !x.returnValue.hasValue(), "a malformed line runs nothing and gives its one syntax error"); sym_reach("malformed"); }
    else {
      CHECKM(spanIs(x.input.name, p, r.name) && x.input.arguments.size() == (size_t)r.na && x.input.namedArguments.size() == (size_t)r.nn, "the result echoes the input");
      for (int i = 0; i < r.na; i++) CHECKM(valueIs(x.input.arguments[i], p, r.a[i]), "echoed argument"); for (int i = 0; i < r.nn; i++) CHECKM(spanIs(x.input.namedArguments[i].key, p, r.key[i]) && valueIs(x.input.namedArguments[i].value, p, r.v[i]), "echoed named argument");
      if (r.na == 2 && r.a[1].n != 1) CHECKM(ran == 0 && x.errors.size() == 1 && !x.returnValue.hasValue(), "a view takes one subvalue");
      else if (r.na <= 3) { Txt m; m.num(r.na == 1 ? (size_t)r.a[0].n : (size_t)r.na); CHECKM(ran == 1 && x.errors.empty() && x.returnValue.hasValue() && strIs(*x.returnValue, m), "the matching overload runs"); if (r.na == 0) CHECK(seen == (size_t)r.nn); sym_reach("ran"); }
      else { Txt m("Wrong number of arguments to 'f': expected 0, 1, 2 or 3, got "); m.num((size_t)r.na); CHECKM(ran == 0 && x.errors.size() == 1 && strIs(x.errors[0], m) && !x.returnValue.hasValue(), "the number received is stated"); sym_reach("wrong count"); }
    } }
  free(p);
}
// C08: long bad texts among good ones, for every parameter position
extern "C" void check_long_bad() {
  static const size_t LENS[] = {17, 65, 130, 255, 256, 300, 1100}; size_t n = LENS[pick(7, "len", "L")]; static char t[7][1100]; bool bad[7]; int ran = 0; Bindings b; static const char* TY[7] = {"int", "unsigned char", "bool", "float", "Kilo thing", "vector<int>", "optional<short>"}; static const char* const GOOD[7] = {"12", "7", "true", "1", "kz", "5", ""};
  b["f"] = [&](int i, unsigned char u, bool f, float, Kilo k, std::vector<int> v, std::optional<short> o) { ran++; return i == 12 && u == 7 && f && k.c == 'z' && v.size() == 1 && v[0] == 5 && !o.has_value(); };
  ExecutionInput in; in.name = "f"; size_t nb = 0; coil::Vector<String> want;
  for (int i = 0; i < 7; i++) {
    bad[i] = sym_choice(2, "bad"); if (!bad[i]) { in.arguments.pushBack(Value{GOOD[i]}); continue; } nb++; sym_bytes(t[i], n, "text"); for (size_t k = 0; k < n; k++) sym_assume((t[i][k] > '9') & (t[i][k] != 'k') & (t[i][k] != 'i') & (t[i][k] != 'I') & (t[i][k] != 'n') & (t[i][k] != 'N'));
    in.arguments.pushBack(Value{StringView{t[i], n}}); Txt m; if (i == 4) m.add("not a kilo"); else { genericError(m, StringView{t[i], n}, TY[i]); if (i > 4) { m.add(": "); Txt d; genericError(d, StringView{t[i], n}, i == 5 ? "int" : "short"); m.add(d.view()); } } want.pushBack(String{m.view()}); }
  auto r = b.execute(in); CHECKM(ran == (nb == 0), "the command runs exactly when every argument converts"); CHECKM(r.errors.size() == nb, "one error per bad argument"); for (size_t i = 0; i < nb && i < r.errors.size(); i++) CHECKM(strEq(r.errors[i], want[i]), "in order, naming the text and the type in full"); CHECKM(r.returnValue.hasValue() == (nb == 0), "no return value"); if (nb == 0) CHECK(strIs(*r.returnValue, "true")); if (nb == 7) sym_reach("all bad"); if (nb == 1) sym_reach("one bad");
}
// C10 C13 C29: names that differ in one byte, at any place, or in length only
extern "C" void check_long_names() {
  static const size_t LENS[] = {1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 600}; size_t n = LENS[sym_choice(22, "len")]; static char a[700], q[700]; sym_bytes(a, n, "name"); for (size_t i = 0; i < n; i++) { sym_assume(a[i] != 0); q[i] = a[i]; }
  uint32_t how = sym_choice(7, "how"); size_t at = how == 0 ? 0 : how == 1 ? n - 1 : how == 2 ? n / 2 : how == 3 && n > 16 ? 16 : n / 3; size_t qn = n; if (how < 5) { sym_bytes(q + at, 1, "other"); sym_assume((q[at] != 0) & (q[at] != a[at])); } else if (how == 5) { sym_bytes(q + n, 1, "other"); sym_assume(q[n] != 0); qn++; } else qn--;
  int ranA = 0, ranQ = 0; { Bindings b; { String s{StringView{a, n}}; b[s] = [&] { ranA++; }; } ExecutionInput in; in.name = StringView{q, qn}; auto r = b.execute(in);
    if (qn == 0) { CHECKM(ranA == 0 && r.errors.size() == 1 && strIs(r.errors[0], "No function name is specified"), "no name"); }
    else { Txt m("No function '"); m.add(q, qn).add("' is registered"); CHECKM(ranA == 0 && r.errors.size() == 1 && strIs(r.errors[0], m) && !r.returnValue.hasValue(), "an almost equal name is unknown, and quoted in full"); CHECKM(b.get(StringView{q, qn}) == nullptr, "and not found");
      b[StringView{q, qn}] = [&] { ranQ++; }; auto s = b.execute(in); CHECKM(ranA == 0 && ranQ == 1 && s.errors.empty(), "its own command once registered"); auto* c = b.get(StringView{q, qn}); CHECKM(c && svEq(c->name, StringView{q, qn}), "reporting its own name"); in.name = StringView{a, n}; b.execute(in); CHECKM(ranA == 1 && ranQ == 1, "and the other name its own"); b.remove(StringView{a, n}); CHECKM(b.get(StringView{q, qn}) != nullptr && b.get(StringView{a, n}) == nullptr, "removal concerns the one name"); b.execute(in); CHECK(ranA == 1 && ranQ == 1); sym_reach("apart"); } }
}
// C13 C27 C30: many commands; some replaced, some removed, in several patterns
struct Cap { static int alive; int v; Cap(int v) : v(v) { alive++; } Cap(Cap&& o) : v(o.v) { alive++; } Cap(Cap const& o) = delete; ~Cap() { alive--; v = -1; } int operator()() const { return v; } };
int Cap::alive;
extern "C" void check_many_commands() {
  size_t n = sym_param("N", 200); uint32_t pat = sym_choice(6, "pattern"); static int id[400]; Cap::alive = 0; char salt[1]; sym_bytes(salt, 1, "salt"); sym_assume(salt[0] >= 'a' && salt[0] <= 'd');
  auto name = [&](size_t i, char* t) { t[0] = (char)('A' + i % 26); t[1] = (char)('0' + i / 26 % 10); t[2] = (char)('0' + i / 260); t[3] = 'x'; return StringView{t, 4}; };
  { Bindings b; char t[4]; for (size_t i = 0; i < n; i++) { b[name(i, t)] = Cap((int)i + 1); id[i] = (int)i + 1; } size_t live = n;
    switch (pat) {
      case 0: for (size_t i = 0; i < n; i += 2) { b.remove(name(i, t)); id[i] = 0; live--; } break;
      case 1: for (size_t i = n; i-- > n / 2;) { b.remove(name(i, t)); id[i] = 0; live--; } for (size_t i = n / 2; i < n; i += 3) { b[name(i, t)] = Cap(5000 + (int)i); id[i] = 5000 + (int)i; live++; } break;
      case 2: for (size_t i = 0; i < n; i += 3) { b[name(i, t)] = Cap(7000 + (int)i); id[i] = 7000 + (int)i; } break;
      case 3: { Bindings c(coil::move(b)); b = coil::move(c); for (size_t i = 0; i < n; i += 7) { b.remove(name(i, t)); b[name(i, t)] = Cap(9000 + (int)i); id[i] = 9000 + (int)i; } break; }
      case 4: for (size_t i = 0; i < n; i++) { b.remove(name((i * 7) % n, t)); } for (size_t i = 0; i < n; i++) id[i] = 0; live = 0; for (size_t i = 0; i < 20; i++) { b[name(i, t)] = Cap((int)i + 300); id[i] = (int)i + 300; live++; } break;
      default: b.clear(); for (size_t i = 0; i < n; i++) id[i] = 0; live = 0; for (size_t i = 0; i < n; i += 5) { b[name(i, t)] = Cap((int)i + 100); id[i] = (int)i + 100; live++; } }
    CHECKM(Cap::alive == (int)live, "exactly the registered callables are alive");
    for (size_t i = 0; i < n; i++) { auto* c = b.get(name(i, t)); CHECKM((c != nullptr) == (id[i] != 0), "every name keeps its state"); if (!c) continue; CHECKM(svEq(c->name, StringView{t, 4}), "and its own name"); if (i % 9 == 0 || i + 4 > n) { auto r = b.execute(StringView{t, 4}); Txt m; m.num((ull)id[i]); CHECKM(r.errors.empty() && r.returnValue.hasValue() && strIs(*r.returnValue, m), "and its own command"); } }
    t[0] = salt[0]; CHECKM(b.get(StringView{t, 4}) == nullptr, "other names are unknown"); sym_reach("many"); }
  CHECKM(Cap::alive == 0, "destroying the registry destroys every callable");
}
// C15: blanks, zeros, digits of any number
template<class X> static void longInt() {
  static const size_t W[] = {0, 1, 9, 40}, Z[] = {0, 1, 19, 30, 300}, D[] = {0, 1, 2, 3}; gN = 0; size_t w = W[sym_choice(4, "blanks")], z = Z[sym_choice(5, "zeros")], d = D[sym_choice(4, "digits")];
  sym_bytes(gBuf, w, "blank"); for (size_t i = 0; i < w; i++) sym_assume(isWs(gBuf[i])); gN = w; uint32_t sign = sym_choice(3, "sign"); if (sign) gBuf[gN++] = sign == 1 ? '-' : '+'; for (size_t i = 0; i < z; i++) gBuf[gN++] = '0'; sym_bytes(gBuf + gN, d, "digits"); for (size_t i = 0; i < d; i++) sym_assume(isDig(gBuf[gN + i])); gN += d;
  uint32_t tail = sym_choice(3, "tail"); if (tail == 1) { sym_bytes(gBuf + gN, 1, "tailbyte"); sym_assume(!isDig(gBuf[gN])); gN++; } else if (tail == 2) for (int i = 0; i < 30; i++) gBuf[gN++] = '9';
  char* p = exact(); size_t n = gN; { ull mag = 0; bool ok = z + d > 0 && tail != 1, big = tail == 2; for (size_t i = 0; i < d; i++) mag = mag * 10 + (ull)(p[w + (sign != 0) + z + i] - '0'); IntText t{ok, sign == 1, big, mag}; if (tail == 2) t.ok = true;
    bool open = std::numeric_limits<X>::min() == 0 && t.ok && t.neg && t.mag == 0 && !t.big; auto e = Value{StringView{p, n}}.get<X>(); bool want = inRange<X>(t);
    if (!open) { CHECKM(e.hasValue() == want, "accepted exactly when the text is an integer in range"); if (e.hasValue() && want) { sym_reach("value"); CHECKM(*e == (X)(t.neg ? 0 - t.mag : t.mag), "the value is the number written"); } if (!e.hasValue() && !want) { sym_reach("rejected"); Txt m; genericError(m, StringView{p, n}, tname<X>()); CHECKM(strIs(e.error(), m), "the error names the whole text and the type"); } } }
  free(p);
}
extern "C" void check_long_int() { switch (sym_param("T", 0)) { case 0: longInt<char>(); break; case 1: longInt<signed char>(); break; case 2: longInt<unsigned char>(); break; case 3: longInt<short>(); break; case 4: longInt<unsigned short>(); break; case 5: longInt<int>(); break; case 6: longInt<unsigned>(); break; case 7: longInt<long>(); break; case 8: longInt<unsigned long>(); break; case 9: longInt<long long>(); break; default: longInt<ull>(); } }
// C19: long lists
template<class X> static const char* longListName();
extern "C" void check_long_list() {
  static const size_t KS[] = {5, 9, 16, 17, 33, 70, 130, 300}; size_t k = KS[pick(8, "count", "Q")], n = sym_choice(2, "len") ? 20 : 1; uint32_t type = sym_choice(3, "type"); size_t bad = sym_choice(4, "bad"); bad = bad == 0 ? k : bad == 1 ? 0 : bad == 2 ? k / 2 : k - 1; size_t bad2 = k - 1; // a second offence later
  static char t[300][20]; Value v{coil::Vector<StringView>{}}; Txt repr; for (size_t i = 0; i < k; i++) { size_t z = type == 0 && n > 4 ? n - 4 : 0; memset(t[i], '0', z); sym_bytes(t[i] + z, n - z, "elem"); for (size_t c = z; c < n; c++) { if (type == 0) { sym_assume(isDig(t[i][c])); } else sym_assume(t[i][c] != 0); } if (type == 0 && bad < k && (i == bad || i == bad2)) t[i][n - 1] = i == bad ? 'x' : 'y'; v.subvalues.pushBack(StringView{t[i], n}); if (i) repr.ch(' '); repr.add(t[i], n); }
  ExecutionInput in; in.name = "f"; in.arguments.pushBack(v); int ran = 0; Bindings b; Txt print("["); std::vector<int> gi; std::vector<String> gs; std::vector<std::optional<std::string>> go;
  switch (type) { case 0: b["f"] = [&](std::vector<int> x) { ran++; gi = x; return (int)x.size(); }; break; case 1: b["f"] = [&](std::vector<String> const& x) { ran++; gs = x; return x; }; break; default: b["f"] = [&](std::vector<std::optional<std::string>> x) { ran++; go = x; return x; }; }
  auto r = b.execute(in);
  if (type == 0 && bad < k) { Txt m, d; genericError(m, repr.view(), "vector<int>"); genericError(d, StringView{t[bad], n}, "int"); m.add(": ").add(d.view()); CHECKM(ran == 0 && r.errors.size() == 1 && strIs(r.errors[0], m) && !r.returnValue.hasValue(), "one bad element rejects the list and is named"); sym_reach("bad element"); return; }
  CHECKM(ran == 1 && r.errors.empty() && r.returnValue.hasValue(), "a list of good elements is accepted");
  for (size_t i = 0; i < k; i++) {
    if (type == 0) { int x = 0; for (size_t c = 0; c < n; c++) x = x * 10 + (t[i][c] - '0'); CHECKM(gi.size() == k && gi[i] == x, "elements in order"); }
    else { if (type == 1) CHECKM(gs.size() == k && strEq(gs[i], StringView{t[i], n}), "elements in order"); else CHECKM(go.size() == k && go[i].has_value() && go[i]->size() == n && bytesEq(go[i]->data(), t[i], n), "elements in order"); if (i) print.add(", "); print.add(t[i], n); } }
  if (type) { print.ch(']'); CHECKM(strIs(*r.returnValue, print), "a list prints as [a, b, c]"); } sym_reach("list");
}
// C20: many named arguments
extern "C" void check_long_named() {
  static const size_t KS[] = {5, 9, 17, 33, 70, 300}; size_t k = KS[pick(6, "count", "Q")], kl = sym_choice(3, "keylen"); kl = kl == 0 ? 2 : kl == 1 ? 17 : 65; static char key[300][65]; static char val[300][2]; ExecutionInput in; in.name = "f";
  for (size_t i = 0; i < k; i++) { for (size_t c = 0; c < kl; c++) key[i][c] = 'k'; key[i][kl - 1] = (char)('0' + i % 60); key[i][0] = (char)('a' + i / 60); sym_bytes(val[i], 2, "val"); sym_assume(isDig(val[i][0]) & isDig(val[i][1])); in.namedArguments.pushBack(NamedValue{StringView{key[i], kl}, Value{StringView{val[i], 2}}}); }
  static const size_t PLACES[] = {0, 1, 31, 32, 63, 64, 127, 128, 254, 255, 256, 298, 299}; size_t a = k < 100 ? sym_choice((uint32_t)k, "first") : PLACES[sym_choice(13, "first")], d = sym_choice(3, "second"); d = d == 0 ? k : d == 1 ? (a + 1) % k : (a + k / 2) % k; if (d < k) for (size_t c = 0; c < kl; c++) key[d][c] = key[a][c]; // the same key twice
  size_t first = d < a ? d : a; uint32_t bad = sym_choice(2, "bad"); if (bad) val[first][1] = 'x'; Bindings b; int ran = 0;
  b["f"] = [&](Context c) { ran++; auto na = c.namedArgs(); CHECKM(na.size() == k, "every named argument is there"); size_t i = 0; for (auto& v : na) { CHECKM(i < k && v.key.data() == key[i] && v.key.length() == kl && v.value.subvalues.size() == 1 && v.value.subvalues[0].data() == val[i], "in order"); i++; } CHECK(i == k);
    auto e = na.get<int>(StringView{key[a], kl}); CHECKM(e.hasValue() == !bad, "the first occurrence is what counts"); if (e.hasValue()) CHECKM(*e == (val[first][0] - '0') * 10 + (val[first][1] - '0'), "its value"); else CHECKM(e.error().type == NamedArgs::Error::Type::TypeMismatch, "a wrong type is not a missing key"); auto it = na.find(StringView{key[a], kl}); CHECKM(it == na.begin() + first, "found at its place");
    char other[65]; for (size_t x = 0; x < kl; x++) other[x] = 'k'; other[0] = 'z'; CHECKM(na.find(StringView{other, kl}) == na.end() && *na.getOrReport<int>(StringView{other, kl}, AT::Optional, 3) == 3, "an absent key is absent"); auto m = na.getOrReport<int>(StringView{other, kl}, AT::Required); CHECK(!m.hasValue()); };
  auto r = b.execute(in); Txt m("Missing named argument '"); for (size_t x = 0; x < kl; x++) m.ch(x ? 'k' : 'z'); m.ch('\''); CHECKM(ran == 1 && r.errors.size() == 1 && strIs(r.errors[0], m), "reported once, naming the key"); sym_reach("many");
}
// C20: keys that agree everywhere but at one byte, wherever that byte is
extern "C" void check_close_keys() {
  static const size_t LENS[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 20, 23, 24, 25, 31, 32, 33, 40, 47, 48, 49}; size_t kl = LENS[sym_choice(28, "keylen")], at = sym_choice((uint32_t)kl, "at"); char base[49], key[3][49], ask[49]; char val[3][2];
  sym_bytes(base, kl, "key"); uint32_t which = sym_choice(5, "ask"); ExecutionInput in; in.name = "f";
  for (int i = 0; i < 3; i++) { for (size_t c = 0; c < kl; c++) key[i][c] = base[c]; sym_bytes(val[i], 2, "val"); sym_assume(isDig(val[i][0]) & isDig(val[i][1])); } key[0][at] = (char)sym_u8("b0"); key[1][at] = (char)sym_u8("b1"); key[2][at] = (char)sym_u8("b2"); sym_assume((key[0][at] != key[1][at]) & (key[1][at] != key[2][at]) & (key[0][at] != key[2][at]));
  for (int i = 0; i < 3; i++) in.namedArguments.pushBack(NamedValue{StringView{key[i], kl}, Value{StringView{val[i], 2}}});
  size_t al = kl; for (size_t c = 0; c < kl; c++) ask[c] = base[c]; if (which < 3) ask[at] = key[which][at]; else if (which == 3) { ask[at] = (char)sym_u8("b3"); sym_assume((ask[at] != key[0][at]) & (ask[at] != key[1][at]) & (ask[at] != key[2][at])); } else { al--; for (size_t c = 0; c < al; c++) ask[c] = key[0][c]; }
  Bindings b; int ran = 0; b["f"] = [&](Context c) { ran++; auto na = c.namedArgs(); auto it = na.find(StringView{ask, al}); auto e = na.get<int>(StringView{ask, al}); if (which < 3) { CHECKM(it == na.begin() + which, "the one with exactly that key"); CHECKM(e.hasValue() && *e == (val[which][0] - '0') * 10 + (val[which][1] - '0'), "its value"); sym_reach("exact"); } else { CHECKM(it == na.end() && !e.hasValue() && e.error().type == NamedArgs::Error::Type::MissingKey, "no such key"); sym_reach("absent"); } };
  auto r = b.execute(in); CHECK(ran == 1 && r.errors.empty());
}
// C07: many overloads
template<int N> struct Arity; 
extern "C" void check_many_overloads() {
  static const size_t FS[] = {5, 9, 17, 33, 70, 300}; size_t f = FS[sym_choice(6, "overloads")]; int calls = 0, id = -1; uint32_t pat = sym_choice(4, "pattern"); static int arity[300]; Bindings b; coil::Vector<coil::AnyFunctor> fs; using coil::detail::createAnyFunctor;
  for (size_t i = 0; i < f; i++) { int k = (int)i; arity[i] = pat == 0 ? (int)(i % 4) : pat == 1 ? (i + 1 == f ? 2 : 1) : pat == 2 ? (i == 0 ? 3 : 0) : (i == f / 2 ? 1 : i % 2 ? 3 : 2); auto hit = [&calls, &id, k] { calls++; id = k; };
    switch (arity[i]) { case 0: fs.pushBack(createAnyFunctor([hit](Context) { hit(); })); break; case 1: fs.pushBack(createAnyFunctor([hit](Value) { hit(); })); break; case 2: fs.pushBack(createAnyFunctor([hit](Context, Value, Value) { hit(); })); break; default: fs.pushBack(createAnyFunctor([hit](Value, Value, Value) { hit(); })); } }
  b["f"] = coil::move(fs); size_t na = sym_choice(5, "args"); char t[5]; sym_bytes(t, 5, "arg"); ExecutionInput in; in.name = "f"; for (size_t i = 0; i < na; i++) in.arguments.pushBack(Value{StringView{t + i, 1}}); in.namedArguments.pushBack(NamedValue{"k", Value{"v"}});
  int want = -1; for (size_t i = 0; i < f && want < 0; i++) if (arity[i] == (int)na) want = (int)i; auto r = b.execute(in); auto* c = b.get("f"); CHECK(c && c->functors.size() == f); for (size_t i = 0; i < f; i++) CHECKM(c->functors[i].arity() == (size_t)arity[i], "every overload reports its parameter count");
  if (want >= 0) { CHECKM(calls == 1 && id == want && r.errors.empty(), "the first overload with that many parameters runs, once"); sym_reach("match"); } else { Txt m("Wrong number of arguments to 'f': expected "); for (size_t i = 0; i < f; i++) { if (i) m.add(i + 1 == f ? " or " : ", "); m.num((ull)arity[i]); } m.add(", got ").num(na); CHECKM(calls == 0 && r.errors.size() == 1 && strIs(r.errors[0], m), "the accepted counts in registration order"); sym_reach("none"); }
}
// C09 C11 C23 C31: many and long errors, long results, long texts of exceptions
struct LongError : std::exception { const char* t; LongError(const char* t) : t(t) {} const char* what() const noexcept override { return t; } };
struct Chatty { char c; bool operator==(Chatty o) const { return c == o.c; } bool operator!=(Chatty o) const { return c != o.c; } }; static const char* gText; static size_t gTextN;
template<> struct coil::TypeSerializer<Chatty> { static coil::Expected<Chatty, coil::String> fromString(coil::Value const&) { return coil::makeUnexpected(coil::String{coil::StringView{gText, gTextN}}); } static coil::String toString(Chatty const&) { return coil::String{coil::StringView{gText, gTextN}}; } };
COIL_CREATE_TYPE_NAME(Chatty, "Chatty");
extern "C" void check_long_results() {
  static const size_t LENS[] = {0, 1, 15, 16, 17, 64, 255, 256, 257, 1000, 1100, 5000}; size_t n = LENS[sym_choice(12, "len")]; static char t[5001]; sym_bytes(t, n, "text"); t[n] = 0; bool z = sym_choice(2, "zeros"); if (!z) for (size_t i = 0; i < n; i++) sym_assume(t[i] != 0); else if (n) t[n / 2] = 0; StringView want{t, n}; gText = t; gTextN = n;
  Bindings b; b["str"] = [&] { return String{want}; }; b["std"] = [&] { return std::string(t, n); }; b["view"] = [&] { return want; }; b["err"] = [&](Context c) { c.reportError(String{want}); return 1; }; b["errs"] = [&](Context c) { for (int i = 0; i < 150; i++) { Txt m; m.num((ull)i); c.reportErrors(String{m.view()}, String{want}); } }; b["log"] = [&](Context c) { c.log(String{want}); c.logline(String{want}); return 2; }; b["user"] = [&] { return Chatty{'c'}; }; b["conv"] = [&](Chatty) { return 3; }; b["list"] = [&](std::vector<Chatty>) { return 4; }; b["throw"] = [&](Context c) { c.log("before"); throw LongError(t); }; b["what"] = [&]() -> int { throw std::runtime_error(std::string(t)); };
  auto ok = [&](const char* l) { auto r = b.execute(l); CHECKM(r.errors.empty() && r.returnValue.hasValue() && strEq(*r.returnValue, want) && r.output.empty(), "results are returned byte for byte"); }; ok("str"); ok("std"); ok("view"); ok("user");
  { auto r = b.execute("err"); CHECKM(r.errors.size() == 1 && strEq(r.errors[0], want) && !r.returnValue.hasValue(), "a reported error appears in full"); } { auto r = b.execute("conv x"); CHECKM(r.errors.size() == 1 && strEq(r.errors[0], want) && !r.returnValue.hasValue(), "the user's own error text is what is reported"); }
  { auto r = b.execute("errs"); CHECKM(r.errors.size() == 300, "every error once"); for (size_t i = 0; i < r.errors.size() && i < 300; i++) { Txt m; m.num(i / 2); CHECKM(i % 2 ? strEq(r.errors[i], want) : strIs(r.errors[i], m), "in order"); } }
  { auto r = b.execute("log"); Txt m; m.add(want); CHECKM(r.output.length() == 2 * n + 1 && bytesEq(r.output.cStr(), t, n) && bytesEq(r.output.cStr() + n, t, n) && r.output.cStr()[2 * n] == '\n' && r.returnValue.hasValue(), "the output is what was logged"); }
  if (!z) { Txt m("Exception caught during execution: "); m.add(want); auto r = b.execute("throw"); CHECKM(r.errors.size() == 1 && strIs(r.errors[0], m) && strIs(r.output, "before") && !r.returnValue.hasValue(), "the exception's text in full"); auto s = b.execute("what"); CHECKM(s.errors.size() == 1 && strIs(s.errors[0], m), "the exception's text in full");
    Txt d; genericError(d, "x", "vector<Chatty>"); if (n) d.add(": ").add(want); auto l = b.execute("list x"); CHECKM(l.errors.size() == 1 && strIs(l.errors[0], d), "inside a list the element's own text follows"); sym_reach("texts"); } else sym_reach("zeros");
}
// C12: a long history of executions of every outcome on one registry; each is as it would be alone
extern "C" void check_many_runs() {
  size_t k = sym_param("K", 60); Bindings b; int n = 0; char t[4]; sym_bytes(t, 4, "text"); for (int i = 0; i < 4; i++) sym_assume((t[i] >= 'a') & (t[i] <= 'z'));
  b["ok"] = [&] { n++; return 5; }; b["err"] = [&](Context c) { n++; c.reportError(String{StringView{t, 2}}); c.log("o"); return 1; }; b["throw"] = [&](Context c) { n++; c.log("t"); throw std::runtime_error(std::string(t, 4)); }; b["conv"] = [&](int v) { n++; return v; }; b["nest"] = [&](Context c) { n++; auto r = b.execute("err"); c.log(r.output); return (int)r.errors.size(); }; b["named"] = [&](Context c) { n++; auto v = c.namedArgs().getOrReport<int>("k", AT::Required); return v ? *v : -1; };
  uint32_t start = sym_choice(9, "start"), step = sym_choice(4, "step"); Txt bad("conv 12"); bad.add(t, 3); Txt un("z"); un.add(t, 4); Txt named("named k="); named.add(t, 1);
  for (size_t i = 0; i < k; i++) {
    uint32_t w = (uint32_t)((start + i * step) % 9); int before = n; if (w == 3) errno = ERANGE; 
    auto is = [&](ExecutionResult const& r, const char* err, size_t en, const char* ret, const char* out, int runs) { CHECKM((err ? r.errors.size() == 1 && strEq(r.errors[0], StringView{err, en}) : r.errors.empty()), "its own errors only"); CHECKM(ret ? r.returnValue.hasValue() && strIs(*r.returnValue, ret) : !r.returnValue.hasValue(), "its own return value"); CHECKM(strIs(r.output, out), "its own output"); CHECKM(n == before + runs, "runs once"); };
    switch (w) {
      case 0: is(b.execute("ok"), nullptr, 0, "5", "", 1); break; case 1: is(b.execute("err"), t, 2, nullptr, "o", 1); break;
      case 2: { Txt m("Exception caught during execution: "); m.add(t, 4); is(b.execute("throw"), m.b, m.n, nullptr, "t", 1); break; }
      case 3: is(b.execute("conv 77"), nullptr, 0, "77", "", 1); break; case 4: { Txt m("Unable to convert '12"); m.add(t, 3).add("' to type 'int'"); is(b.execute(bad.view()), m.b, m.n, nullptr, "", 0); break; }
      case 5: is(b.execute("nest"), nullptr, 0, "1", "o", 2); break; case 6: { Txt m("No function 'z"); m.add(t, 4).add("' is registered"); is(b.execute(un.view()), m.b, m.n, nullptr, "", 0); break; }
      case 7: { const char* m = "Syntax error: Token ''' doesn't have a corresponding opening/closing quote"; is(b.execute("conv '"), m, strlen(m), nullptr, "", 0); break; }
      default: { Txt m; genericError(m, StringView{t, 1}, "int"); is(b.execute(named.view()), m.b, m.n, nullptr, "", 1); } } }
  sym_reach("many");
}
// C21 C22: long texts through variables and properties
extern "C" void check_long_access() {
  static const size_t LENS[] = {15, 16, 17, 63, 64, 65, 255, 256, 257, 1000, 1100}; size_t n = LENS[sym_choice(11, "len")], m0 = LENS[sym_choice(2, "before") * 4 + 2]; static char t[1100], o[1100]; sym_bytes(t, n, "text"); sym_bytes(o, m0, "old"); for (size_t i = 0; i < n; i++) sym_assume((t[i] != 0) & !isDig(t[i]) & !isWs(t[i]) & (t[i] != '-') & (t[i] != '+')); 
  StringView text{t, n}, old{o, m0}; String v{old}, c{old}, p{old}, other{old}; int num = 7, sets = 0, gets = 0; Bindings b; b["v"] = coil::variable(&v); b["c"] = coil::variable((String const*)&c); b["n"] = coil::variable(&num); b["other"] = coil::variable(&other);
  b["p"] = coil::property([&]() -> String const& { gets++; return p; }, [&](String const& x) { sets++; p = x; }); b["r"] = coil::property([&] { gets++; return p; });
  auto call = [&](const char* name, bool arg) { ExecutionInput in; in.name = name; if (arg) in.arguments.pushBack(Value{text}); return b.execute(in); };
  auto is = [&](ExecutionResult const& r, StringView want) { CHECKM(r.errors.empty() && r.returnValue.hasValue() && strEq(*r.returnValue, want), "the text of the current value"); };
  auto error = [&](ExecutionResult const& r, const char* want) { CHECKM(r.errors.size() == 1 && strIs(r.errors[0], want) && !r.returnValue.hasValue(), "the error says why"); };
  is(call("v", false), old); is(call("c", false), old); is(call("p", false), old); is(call("r", false), old); CHECKM(sets == 0, "reading writes nothing");
  is(call("v", true), text); CHECKM(strEq(v, text), "the object holds exactly the text stored"); error(call("c", true), "This variable is read-only"); CHECK(strEq(c, old));
  is(call("p", true), text); CHECKM(sets == 1 && strEq(p, text), "the setter runs once, with the value"); error(call("r", true), "This property is read-only"); CHECK(sets == 1 && strEq(p, text));
  { Txt m; genericError(m, text, "int"); auto r = call("n", true); CHECKM(r.errors.size() == 1 && strIs(r.errors[0], m) && !r.returnValue.hasValue() && num == 7, "a text that does not convert changes nothing"); }
  is(call("v", false), text); is(call("p", false), text); is(call("r", false), text); is(call("other", false), old); v = String{old}; is(call("v", false), old); sym_reach("long");
}
