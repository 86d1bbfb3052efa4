// C15 C16 C17 C18 C19 C31: conversions between text and values
#include "values.h"
#include <errno.h>
#include <stdio.h>
using coil::ExecutionInput; using coil::ExecutionResult; using coil::Expected; using coil::overloaded;

#define INTS(F) switch (sym_param("T", 0)) { case 0: F(char); break; case 1: F(signed char); break; case 2: F(unsigned char); break; case 3: F(short); break; case 4: F(unsigned short); break; case 5: F(int); break; case 6: F(unsigned); break; case 7: F(long); break; case 8: F(unsigned long); break; case 9: F(long long); break; default: F(ull); }

// ---------------------------------------------------------------- C15
template<class X> static void intCase(const char* p, size_t n) {
  errno = sym_choice(2, "pending") ? ERANGE : 0;
  IntText t = refInt(p, n); bool want = inRange<X>(t);
  Expected<X, String> e = Value{StringView{p, n}}.get<X>();
  if (!(std::numeric_limits<X>::min() == 0 && t.ok && t.neg && t.mag == 0)) { // "-0" for an unsigned type is left open
    CHECKM(e.hasValue() == want, "accepted exactly when the text is an integer in range");
    if (e.hasValue() && want) { sym_reach("value"); CHECKM(*e == (X)(t.neg ? 0 - t.mag : t.mag), "the value is the number written"); sym_observe((ull)*e, "value"); }
    if (!e.hasValue() && !want) { sym_reach("rejected"); { Txt m; genericError(m, StringView{p, n}, tname<X>()); CHECKM(strIs(e.error(), m), "the error names the text and the type"); } observeStr(e.error(), "error"); }
  }
}
extern "C" void check_int() {
  Line l(sym_param("N", 4));
#define F(X) intCase<X>(l.p, l.n)
  INTS(F)
}
// long digit strings: sign (or none), Z leading zeros, N symbolic digits, then nothing or one symbolic byte
extern "C" void check_int_digits() {
  size_t n = sym_param("N", 5), z = sym_param("Z", 0); char b[64]; size_t k = 0; uint32_t sign = sym_choice(3, "sign"); if (sign) b[k++] = sign == 1 ? '-' : '+';
  while (z--) b[k++] = '0';
  sym_bytes(b + k, n, "digits"); for (size_t i = 0; i < n; i++) sym_assume(isDig(b[k + i])); k += n;
  if (sym_choice(2, "tail")) { sym_bytes(b + k, 1, "tailbyte"); sym_assume(!isDig(b[k])); k++; }
#define G(X) intCase<X>(b, k)
  INTS(G)
}
// around the limits: the digits of the largest value, the last N of them symbolic
template<class X> static void limitCase() {
  Txt m; uint32_t sign = sym_choice(3, "sign"); if (sign) m.ch(sign == 1 ? '-' : '+'); size_t k = m.n; m.num((ull)std::numeric_limits<X>::max() + (sym_choice(2, "longer") ? (ull)std::numeric_limits<X>::max() / 2 : 0)); size_t n = sym_param("N", 2); if (n > m.n - k) n = m.n - k;
  sym_bytes(m.b + m.n - n, n, "digits"); for (size_t i = 0; i < n; i++) sym_assume(isDig(m.b[m.n - n + i])); intCase<X>(m.b, m.n);
}
extern "C" void check_int_limit() {
#define L(X) limitCase<X>()
  INTS(L)
}
// what a command receives
template<class X> static void intCommand(const char* p, size_t n) {
  X got{}; int ran = 0; Bindings b; b["f"] = [&](X v) { got = v; ran++; return v; };
  IntText t = refInt(p, n); bool want = inRange<X>(t); ExecutionInput in; in.name = "f"; in.arguments.pushBack(Value{StringView{p, n}}); auto r = b.execute(in);
  sym_assume(!(std::numeric_limits<X>::min() == 0 && t.ok && t.neg && t.mag == 0));
  CHECKM(ran == (want ? 1 : 0), "the command runs exactly when the text is in range"); if (want) { sym_reach("ran"); CHECKM(got == (X)(t.neg ? 0 - t.mag : t.mag), "the command receives the number written"); } else { sym_reach("rejected"); CHECK(r.errors.size() == 1 && !r.returnValue.hasValue()); }
}
extern "C" void check_int_command() {
  Line l(sym_param("N", 4));
#define H(X) intCommand<X>(l.p, l.n)
  INTS(H)
}

// ---------------------------------------------------------------- C16
template<class X> static void roundTripOf(X v) {
  String s = coil::TypeSerializer<X>::toString(v);
  size_t i = 0; bool neg = s.length() > 0 && s.cStr()[0] == '-'; if (neg) i = 1;
  CHECKM(s.length() > i && s.length() <= 20, "there are digits"); 
  int digits = 1; for (size_t k = i; k < s.length(); k++) digits &= isDig(s.cStr()[k]); CHECKM(digits, "only digits after the sign");
  CHECKM(neg == (v < 0), "the sign is printed exactly for negative values");
  if (s.length() - i > 1) CHECKM(s.cStr()[i] != '0', "no leading zero");
  Expected<X, String> e = Value{StringView{s}}.get<X>(); CHECKM(e.hasValue(), "the printed text is accepted"); if (e.hasValue()) { sym_reach("round"); CHECKM(*e == v, "the same value comes back"); }
  if (neg) sym_reach("negative");
  observeStr(s, "text");
}
template<class X> static void roundTrip() { X v; sym_bytes(&v, sizeof v, "value"); roundTripOf(v); }
// values of every number of digits, near powers of ten and of two and near the limits; the low digits are symbolic
template<class X> static void roundTripEdge() {
  typedef unsigned long long U; const U top = (U)std::numeric_limits<X>::max(); U p = 1, base = 0; uint32_t k = sym_choice(42, "near");
  if (k < 20) { for (uint32_t i = 0; i < k; i++) p *= 10; base = p; } else if (k < 41) { uint32_t bit = (k - 20) * 3 + 3; base = bit < 64 ? (U)1 << bit : top; } else base = top;
  if (base > top) return; unsigned char d; sym_bytes(&d, 1, "delta"); sym_assume(d < 12); U m = base - 6 + d; // wraps around at zero
  X v = (X)m; sym_assume(base > 6 || d >= 6); if (sym_choice(2, "negative")) { if (!std::numeric_limits<X>::is_signed) return; v = (X)(0 - m); sym_reach("negative"); }
  roundTripOf(v);
}
extern "C" void check_roundtrip_edge() {
#define RE(X) roundTripEdge<X>()
  INTS(RE)
}
extern "C" void check_roundtrip() {
#define R(X) roundTrip<X>()
  INTS(R)
}
// through a registry: a command returning its argument, a list, an optional, a variable
template<class X> static void roundTripCommand() {
  X v; sym_bytes(&v, sizeof v, "value"); X got{}; Bindings b; b["give"] = [&] { return v; }; b["take"] = [&](X x) { got = x; }; b["list"] = [&] { return std::vector<X>{v, (X)7}; }; b["opt"] = [&] { return std::optional<X>(v); }; b["ptr"] = [&] { return &v; }; X var = v; b["var"] = coil::variable(&var);
  auto r = b.execute("give"); CHECK(r.returnValue.hasValue()); if (!r.returnValue.hasValue()) return;
  String s = *r.returnValue; ExecutionInput in; in.name = "take"; in.arguments.pushBack(Value{StringView{s}}); auto q = b.execute(in); CHECKM(q.errors.empty() && got == v, "a result can be passed back as argument");
  auto p = b.execute("ptr"); CHECK(p.returnValue.hasValue() && *p.returnValue == s); auto o = b.execute("opt"); CHECK(o.returnValue.hasValue() && *o.returnValue == s); auto w = b.execute("var"); CHECK(w.returnValue.hasValue() && *w.returnValue == s);
  auto l = b.execute("list"); Txt m("["); m.add(StringView{s}).add(", 7]"); CHECK(l.returnValue.hasValue() && strIs(*l.returnValue, m)); sym_reach("round");
}
extern "C" void check_roundtrip_command() {
#define RC(X) roundTripCommand<X>()
  INTS(RC)
}

// ---------------------------------------------------------------- C17
template<class X> struct Flt; 
template<> struct Flt<float> { static float conv(const char* s, char** e) { return strtof(s, e); } static const size_t N = 4; static int print(char* b, size_t n, float v) { return snprintf(b, n, "%g", (double)v); } };
template<> struct Flt<double> { static double conv(const char* s, char** e) { return strtod(s, e); } static const size_t N = 8; static int print(char* b, size_t n, double v) { return snprintf(b, n, "%g", v); } };
template<> struct Flt<long double> { static long double conv(const char* s, char** e) { return strtold(s, e); } static const size_t N = 10; static int print(char* b, size_t n, long double v) { return snprintf(b, n, "%Lg", v); } };
template<class X> static void floatCase(const char* p, size_t n) {
  char* c = (char*)malloc(n + 1); for (size_t i = 0; i < n; i++) c[i] = p[i]; c[n] = 0;
  char* end = nullptr; errno = 0; X want = Flt<X>::conv(c, &end); bool ok = n > 0 && errno == 0 && end == c + n;
  errno = sym_choice(2, "pending") ? ERANGE : 0;
  Expected<X, String> e = Value{StringView{p, n}}.get<X>();
  CHECKM(e.hasValue() == ok, "accepted exactly when the C conversion takes all of it without a range error");
  if (e.hasValue() && ok) { sym_reach("value"); X got = *e; CHECKM(bytesEq((char*)&got, (char*)&want, Flt<X>::N), "the value is the C conversion's"); }
  if (!e.hasValue() && !ok) { sym_reach("rejected"); { Txt m; genericError(m, StringView{p, n}, tname<X>()); CHECKM(strIs(e.error(), m), "the error names the text and the type"); } }
  sym_observe(e.hasValue(), "accepted"); free(c);
}
static void floatText(const char* p, size_t n) { switch (sym_param("T", 1)) { case 0: floatCase<float>(p, n); break; case 1: floatCase<double>(p, n); break; default: floatCase<long double>(p, n); } }
extern "C" void check_float() { Line l(sym_param("N", 3)); floatText(l.p, l.n); }
static const char* const FLOATS[] = {"0", "-0", "1", "-1.5", "+2.25", ".5", "5.", ".", "e5", "1e", "1e+", "1e5", "1E-5", "1e400", "-1e400", "1e39", "-1e39", "1e-400", "1e-46", "1e-320", "3.4028235e38", "3.4028236e38", "1.7976931348623157e308", "1.7976931348623159e308", "2.2250738585072014e-308", "1.17549435e-38", "0x10", "0x1p3", "0x", "inf", "-INF", "infinity", "infinit", "nan", "NaN(1)", "nan(", " 1", "\t1", "\n-2", "1 ", "1,5", "1.5f", "1.5.5", "--1", "+-1", "0.1", "123456789012345678901234567890", "0.000000000000000000000000000000000000001", "1e00000000000000000005", "16777217", "9007199254740993", "0.1000000000000000055511151231257827", "1e4932", "1e4933", "18446744073709551617"};
extern "C" void check_float_list() { uint32_t i = sym_choice(sizeof FLOATS / sizeof *FLOATS, "text"); floatText(FLOATS[i], strlen(FLOATS[i])); }
// a prefix from the list around one symbolic byte at either end
extern "C" void check_float_edge() { static const char* const P[] = {"1", "1.5", "1e5", "inf", "0x1", "-.5", "nan", "1e308"}; uint32_t i = sym_choice(8, "text"); size_t n = strlen(P[i]); char b[16]; size_t k = 0; uint32_t w = sym_choice(3, "where"); if (w != 1) sym_bytes(b + k++, 1, "front"); for (size_t j = 0; j < n; j++) b[k++] = P[i][j]; if (w != 0) sym_bytes(b + k++, 1, "back"); floatText(b, k); }
template<class X> static void printCase(X v) {
  String s = coil::TypeSerializer<X>::toString(v); char b[64]; bool tiny = v > -1e-6 && v < 1e-6;
  if (tiny) { sym_reach("tiny"); CHECKM(strIs(s, "0"), "tiny values print as 0"); }
  else { int n = Flt<X>::print(b, sizeof b, v); sym_reach("printed"); CHECKM(strEq(s, StringView{b, (size_t)n}), "printed with %g from the full value"); }
}
static const double PRINTS[] = {0.0, -0.0, 1, -1, 0.5, 1e-6, -1e-6, 9.999999e-7, -9.999999e-7, 1.0000001e-6, -1.0000001e-6, 1e-7, 123456, 1234567, 100000, 1000000, -999999.5, 0.1, 1e300, -1e300, 3.14159265358979, 1e10, 1e-5, 0.0001, 2.5e-5, 65536.125};
extern "C" void check_print_list() {
  uint32_t i = sym_choice(sizeof PRINTS / sizeof *PRINTS + 3, "value"); double v; if (i < sizeof PRINTS / sizeof *PRINTS) v = PRINTS[i]; else { i -= sizeof PRINTS / sizeof *PRINTS; v = i == 0 ? 1.0 / 0.0 * 1 : i == 1 ? -1e308 * 10 : __builtin_nan(""); }
  switch (sym_param("T", 1)) { case 0: if (v < 1e38 && v > -1e38) printCase<float>((float)v); break; case 1: printCase<double>(v); break; default: printCase<long double>((long double)v); }
}
// every value: the text is the C formatter's of exactly this value
template<class X> static void printAny() { X v; sym_bytes(&v, Flt<X>::N, "value"); printCase<X>(v); }
extern "C" void check_print() { if (sym_param("T", 1)) printAny<double>(); else printAny<float>(); }

// ---------------------------------------------------------------- C18
extern "C" void check_bool() {
  Line l(sym_param("N", 4)); Expected<bool, String> e = Value{l.view()}.get<bool>();
  auto ci = [&](const char* w) { if (l.n != strlen(w)) return 0; int r = 1; for (size_t i = 0; i < l.n; i++) r &= (l.p[i] == w[i]) | (l.p[i] == w[i] - 32); return r; };
  int yes = ci("true") | (l.n == 1 && l.p[0] == '1'), no = ci("false") | (l.n == 1 && l.p[0] == '0');
  if (yes) { sym_reach("true"); CHECKM(e.hasValue() && *e == true, "true"); } else if (no) { sym_reach("false"); CHECKM(e.hasValue() && *e == false, "false"); }
  else { sym_reach("rejected"); CHECKM(!e.hasValue(), "nothing else is a boolean"); if (!e.hasValue() ) { Txt m; genericError(m, l.view(), "bool"); CHECKM(strIs(e.error(), m), "the error names the text and the type"); } }
  bool v = sym_choice(2, "print"); CHECKM(strIs(coil::TypeSerializer<bool>::toString(v), v ? "true" : "false"), "booleans print as true and false"); sym_observe(e.hasValue() ? 1 + *e : 0, "result");
}
template<class S> static const char* dataOf(S const& s) { if constexpr (coil::IsSameV<S, String>) return s.cStr(); else return s.data(); }
template<class S> static size_t lenOf(S const& s) { return s.length(); }
template<class S> static void stringCase(StringView text) {
  ExecutionInput in; in.name = "f"; in.arguments.pushBack(Value{text}); int ran = 0; bool same = false; S kept{};
  { Bindings b; b["f"] = [&](S s) { ran++; same = lenOf(s) == text.length() && bytesEq(dataOf(s), text.data(), text.length()); kept = s; return s; }; b["r"] = [&](S const& s) { ran++; return s; };
    auto r = b.execute(in); CHECKM(ran == 1 && same, "the text arrives byte for byte"); CHECKM(r.returnValue.hasValue() && strEq(*r.returnValue, text), "and returns byte for byte");
    in.name = "r"; auto q = b.execute(in); CHECK(q.returnValue.hasValue() && strEq(*q.returnValue, text)); sym_reach("string"); observeResult(q); }
  CHECKM(lenOf(kept) == text.length() && bytesEq(dataOf(kept), text.data(), text.length()), "a kept string stays intact");
}
extern "C" void check_string() { Line l(sym_param("N", 3)); switch (sym_choice(4, "kind")) { case 0: stringCase<String>(l.view()); break; case 1: stringCase<StringView>(l.view()); break; case 2: stringCase<std::string>(l.view()); break; default: stringCase<std::string_view>(l.view()); } }
extern "C" void check_string_results() { // results that are not arguments
  size_t n = sym_param("N", 3); char t[1200]; sym_bytes(t, n, "text"); t[n] = 0; Bindings b; b["own"] = [&] { return String{t, n}; }; b["view"] = [&] { return StringView{t, n}; }; b["std"] = [&] { return std::string(t, n); }; b["stdview"] = [&] { return std::string_view(t, n); }; b["c"] = [&]() -> char const* { return t; }; static String st; st = String{t, n}; b["ref"] = []() -> String const& { return st; }; b["ptr"] = [] { return &st; }; b["opt"] = [&] { return std::optional<String>(String{t, n}); }; b["list"] = [&] { return std::vector<String>{String{t, n}, "x"}; };
  static const char* const W[] = {"own", "view", "std", "stdview", "ref", "ptr", "opt"}; StringView want{t, n};
  for (auto w : W) { auto r = b.execute(w); CHECKM(r.returnValue.hasValue() && strEq(*r.returnValue, want), "string results are returned byte for byte"); }
  auto r = b.execute("c"); size_t k = 0; while (t[k]) k++; CHECK(r.returnValue.hasValue() && strEq(*r.returnValue, StringView{t, k})); auto l = b.execute("list"); Txt m("["); m.add(want).add(", x]"); CHECK(l.returnValue.hasValue() && strIs(*l.returnValue, m)); sym_reach("results"); st = String{};
}

// ---------------------------------------------------------------- C19 C31
struct Subs { char t[8][4]; Value v; Txt repr; size_t k; StringView at(size_t i) const { return v.subvalues[i]; } };
static void makeSubs(Subs& s, size_t k, size_t n) {
  coil::Vector<StringView> subs; s.k = k;
  for (size_t i = 0; i < k; i++) { size_t len = sym_choice((uint32_t)n + 1, "len"); sym_bytes(s.t[i], len, "sub"); if (i) s.repr.ch(' '); s.repr.add(s.t[i], len); subs.pushBack(StringView{s.t[i], len}); }
  s.v = Value{coil::move(subs)};
}
template<class X> static void listCase(Subs& s) {
  ExecutionInput in; in.name = "f"; in.arguments.pushBack(s.v); int ran = 0; std::vector<X> got; Bindings b; b["f"] = [&](std::vector<X> v) { ran++; got = v; };
  auto r = b.execute(in); X want[8]; size_t bad = s.k; for (size_t i = 0; i < s.k && bad == s.k; i++) if (!Ref<X>::ok(s.at(i), &want[i])) bad = i;
  if (bad == s.k) { sym_reach("list"); CHECKM(ran == 1 && r.errors.empty(), "a list of good elements is accepted"); CHECKM(got.size() == s.k, "every element once"); if (got.size() == s.k) for (size_t i = 0; i < s.k; i++) CHECKM(Ref<X>::eq(got[i], want[i]), "elements in order"); }
  else { sym_reach("bad element"); CHECKM(ran == 0 && r.errors.size() == 1, "one bad element rejects the list"); if (r.errors.size() == 1) { Txt nm("vector<"), d, m; Ref<X>::name(nm); nm.ch('>').ch(0); Ref<X>::err(d, s.at(bad)); genericError(m, s.repr.view(), nm.b); m.add(": ").add(d.view()); CHECKM(strIs(r.errors[0], m), "the error names the list and the bad element"); } }
  observeResult(r);
}
extern "C" void check_list() {
  static Subs s; s.repr = Txt(); makeSubs(s, sym_param("K", 2), sym_param("N", 1));
  switch (sym_param("X", 0)) { case 0: listCase<int>(s); break; case 1: listCase<String>(s); break; case 2: listCase<std::optional<int>>(s); break; case 3: listCase<Kilo>(s); break; default: listCase<std::optional<Kilo>>(s); }
}
template<class X> static void optionalCase(StringView t) {
  ExecutionInput in; in.name = "f"; in.arguments.pushBack(Value{t}); int ran = 0; std::optional<X> got; Bindings b; b["f"] = [&](std::optional<X> v) { ran++; got = v; return v; }; auto r = b.execute(in);
  std::optional<X> want; bool ok = Ref<std::optional<X>>::ok(t, &want);
  if (ok) { CHECKM(ran == 1 && r.errors.empty() && Ref<std::optional<X>>::eq(got, want), "empty text is no value, anything else the converted value"); if (!want.has_value()) { sym_reach("empty"); CHECKM(r.returnValue.hasValue() && r.returnValue->length() == 0, "an empty optional prints as empty text"); } else { sym_reach("engaged"); CHECKM(r.returnValue.hasValue() && *r.returnValue == coil::TypeSerializer<X>::toString(*want), "an engaged optional prints as its value"); } }
  else { sym_reach("bad"); CHECKM(ran == 0 && r.errors.size() == 1, "a bad value is rejected"); { Txt m; Ref<std::optional<X>>::err(m, t); CHECKM(strIs(r.errors[0], m), "the error names the optional and the value"); } }
}
extern "C" void check_optional() { Line l(sym_param("N", 2)); switch (sym_choice(4, "type")) { case 0: optionalCase<int>(l.view()); break; case 1: optionalCase<bool>(l.view()); break; case 2: optionalCase<Kilo>(l.view()); break; default: optionalCase<String>(l.view()); } }
template<class X> static void singleCase(Subs& s) {
  ExecutionInput in; in.name = "f"; in.arguments.pushBack(s.v); int ran = 0; Bindings b; b["f"] = [&](X) { ran++; }; auto r = b.execute(in);
  CHECKM(ran == 0 && r.errors.size() == 1, "a single-value parameter takes exactly one subvalue"); Txt m; genericError(m, s.repr.view(), tname<X>()); m.add(": Expected 1 subvalues, got ").num(s.k); if (r.errors.size() == 1) CHECKM(strIs(r.errors[0], m), "the error states how many were received"); sym_reach("mismatch"); observeResult(r);
}
extern "C" void check_single() {
  static Subs s; s.repr = Txt(); size_t k = sym_choice(4, "count"); if (k == 1) k = 5; makeSubs(s, k, 1);
  switch (sym_choice(19, "type")) { case 0: singleCase<char>(s); break; case 1: singleCase<signed char>(s); break; case 2: singleCase<unsigned char>(s); break; case 3: singleCase<short>(s); break; case 4: singleCase<unsigned short>(s); break; case 5: singleCase<int>(s); break; case 6: singleCase<unsigned>(s); break; case 7: singleCase<long>(s); break; case 8: singleCase<unsigned long>(s); break; case 9: singleCase<long long>(s); break; case 10: singleCase<ull>(s); break; case 11: singleCase<float>(s); break; case 12: singleCase<double>(s); break; case 13: singleCase<long double>(s); break; case 14: singleCase<bool>(s); break; case 15: singleCase<String>(s); break; case 16: singleCase<StringView>(s); break; case 17: singleCase<std::string>(s); break; default: singleCase<std::string_view>(s); }
}
extern "C" void check_list_print() {
  size_t k = sym_param("K", 3); std::vector<String> a; std::vector<bool> f; std::vector<std::optional<String>> o; Txt m("["), mf("["), mo("["); char t[8][2];
  std::vector<std::string> ss;
  for (size_t i = 0; i < k; i++) { size_t len = sym_choice(3, "len"); sym_bytes(t[i], len, "elem"); a.push_back(String{t[i], len}); ss.push_back(std::string(t[i], len)); bool v = sym_choice(2, "flag"); if (v) o.push_back(String{t[i], len}); else o.push_back({}); if (i) { m.add(", "); mf.add(", "); mo.add(", "); } m.add(t[i], len); if (v) mo.add(t[i], len); mf.add(v ? "1" : "0"); }
  m.ch(']'); mo.ch(']'); Bindings b; b["f"] = [&] { return a; }; b["o"] = [&] { return o; }; b["s"] = [&]() -> std::vector<std::string> const& { return ss; }; b["e"] = [&] { return std::vector<std::vector<String>>{a, {}, a}; };
  auto r = b.execute("f"); CHECKM(r.returnValue.hasValue() && strIs(*r.returnValue, m), "a list prints as [a, b, c]"); r = b.execute("o"); CHECK(r.returnValue.hasValue() && strIs(*r.returnValue, mo)); r = b.execute("s"); CHECK(r.returnValue.hasValue() && strIs(*r.returnValue, m));
  Txt n("["); n.add(m.view()).add(", [], ").add(m.view()).ch(']'); r = b.execute("e"); CHECK(r.returnValue.hasValue() && strIs(*r.returnValue, n)); sym_reach("printed"); observeResult(r);
}
// C31: the user type alone, as named argument, as variable, and its name everywhere
extern "C" void check_user() {
  Line l(sym_param("N", 2)); Kilo want{0}; bool ok = Ref<Kilo>::ok(l.view(), &want); Kilo var{'0'}, got{0}; int ran = 0; Pair pair{0, 0};
  Bindings b; b["f"] = [&](Kilo k) { ran++; got = k; return k; }; b["v"] = coil::variable(&var); b["n"] = [&](Context c) { auto k = c.namedArgs().getOrReport<Kilo>("key", coil::NamedArgs::ArgType::Required); if (k) { ran++; got = *k; } }; b["l"] = [](std::vector<Kilo>, std::optional<Kilo>, Pair) { return Pair{'x', 'y'}; }; b["p"] = coil::property([&] { return var; }, [&](Kilo const& k) { var = k; });
  b["c"] = [&](Kilo const& k, int) { ran++; got = k; };
  ExecutionInput in; Txt text("<"); text.ch(want.c).ch('>');
  auto one = [&](const char* name, bool named) { in = ExecutionInput{}; in.name = name; if (named) in.namedArguments.pushBack(coil::NamedValue{"key", Value{l.view()}}); else in.arguments.pushBack(Value{l.view()}); return b.execute(in); };
  auto check = [&](ExecutionResult& r, bool returns) { if (ok) { CHECKM(r.errors.empty(), "accepted exactly when the user's conversion accepts"); if (returns) CHECKM(r.returnValue.hasValue() && strIs(*r.returnValue, text), "results use the user's text form"); } else { CHECKM(r.errors.size() == 1 && strIs(r.errors[0], "not a kilo"), "the user's own error text is reported"); CHECK(!r.returnValue.hasValue()); } };
  { auto r = one("f", false); check(r, true); CHECK(ran == (ok ? 1 : 0)); if (ok) CHECKM(got.c == want.c, "the command receives the user's value"); }
  { ran = 0; got.c = 0; auto r = one("n", true); check(r, false); CHECK(ran == (ok ? 1 : 0)); if (ok) CHECK(got.c == want.c); }
  { auto r = one("v", false); check(r, true); CHECKM(var.c == (ok ? want.c : '0'), "the variable holds the user's value"); auto q = b.execute("v"); Txt w("<"); w.ch(var.c).ch('>'); CHECK(q.returnValue.hasValue() && strIs(*q.returnValue, w)); }
  { var.c = '0'; auto r = one("p", false); check(r, true); CHECK(var.c == (ok ? want.c : '0')); }
  { std::optional<Kilo> o, wo; std::vector<Kilo> li; bool oko = Ref<std::optional<Kilo>>::ok(l.view(), &wo); ran = 0; b["o"] = [&](std::optional<Kilo> k) { ran++; o = k; return k; }; b["li"] = [&](std::vector<Kilo> k) { ran++; li = k; return k; }; b["no"] = [&](Context c) { auto k = c.namedArgs().getOrReport<std::optional<Kilo>>("key"); if (k) { ran++; o = *k; } };
    for (int named = 0; named < 2; named++) { ran = 0; o.reset(); auto r = one(named ? "no" : "o", named); if (oko) CHECKM(ran == 1 && r.errors.empty() && Ref<std::optional<Kilo>>::eq(o, wo), "an optional of a user type takes nothing or what the user's conversion accepts"); else { Txt m; Ref<std::optional<Kilo>>::err(m, l.view()); CHECKM(ran == 0 && r.errors.size() == 1 && strIs(r.errors[0], m), "the optional's error carries the user's own text"); } }
    { ran = 0; auto r = one("li", false); if (ok) { Txt m("["); m.add(text.view()).ch(']'); CHECKM(ran == 1 && r.errors.empty() && li.size() == 1 && li[0].c == want.c && r.returnValue.hasValue() && strIs(*r.returnValue, m), "a list of a user type"); } else { Txt m; genericError(m, l.view(), "vector<Kilo thing>"); m.add(": not a kilo"); CHECKM(ran == 0 && r.errors.size() == 1 && strIs(r.errors[0], m), "the list's error carries the user's own text"); } } }
  if (ok) sym_reach("accepted"); else sym_reach("refused");
  auto* f = b.get("f"); CHECK(f && svIs(f->functors[0].parameterTypes()[0], "Kilo thing") && svIs(f->functors[0].returnType(), "Kilo thing")); auto* c = b.get("l"); CHECK(c && svIs(c->functors[0].parameterTypes()[0], "vector<Kilo thing>") && svIs(c->functors[0].parameterTypes()[1], "optional<Kilo thing>") && svIs(c->functors[0].parameterTypes()[2], "Pair") && svIs(c->functors[0].returnType(), "Pair"));
  auto* v = b.get("v"); CHECK(v && v->functors.size() == 2 && svIs(v->functors[1].parameterTypes()[0], "Kilo thing") && svIs(v->functors[0].returnType(), "Kilo thing"));
}
// a user type whose name, refusal and text are any bytes: the registry, errors and results carry exactly those
static char gOddName[64], gOddWhy[64], gOddText[64]; static size_t gOddNameN, gOddWhyN, gOddTextN; static bool gOddOk;
struct Odd { int v = 0; bool operator==(Odd const& o) const { return v == o.v; } bool operator!=(Odd const& o) const { return v != o.v; } };
template<> struct coil::TypeSerializer<Odd> {
  static coil::Expected<Odd, coil::String> fromString(coil::Value const&) { if (!gOddOk) return coil::makeUnexpected(coil::String{gOddWhy, gOddWhyN}); return Odd{3}; }
  static coil::String toString(Odd const&) { return coil::String{gOddText, gOddTextN}; }
};
template<> struct coil::TypeName<Odd> { static coil::StringView name() { return coil::StringView{gOddName, gOddNameN}; } };
extern "C" void check_user_text() {
  gOddNameN = sym_choice((uint32_t)sym_param("N", 2) + 1, "namelen") * sym_param("SCALE", 1); gOddWhyN = sym_choice((uint32_t)sym_param("N", 2) + 1, "whylen") * sym_param("SCALE", 1); gOddTextN = gOddWhyN; sym_bytes(gOddName, gOddNameN, "name"); sym_bytes(gOddWhy, gOddWhyN, "refusal"); sym_bytes(gOddText, gOddTextN, "text"); int nz = 1; for (size_t i = 0; i < gOddNameN; i++) nz &= gOddName[i] != 0; sym_assume(nz); gOddOk = sym_choice(2, "accepted");
  StringView name{gOddName, gOddNameN}, why{gOddWhy, gOddWhyN}, text{gOddText, gOddTextN}; char w[2]; sym_bytes(w, 2, "argument"); StringView arg{w, 2}; int ran = 0; bool held = false; Odd var;
  Bindings b; b["f"] = [&](Odd o) { ran++; return o; }; b["o"] = [&](std::optional<Odd> o) { ran++; held = o.has_value(); return o; }; b["l"] = [&](std::vector<Odd> l) { ran++; return l; }; b["lo"] = [&](std::vector<std::optional<Odd>> l) { ran++; held = l.size() == 1 && l[0].has_value(); return l; }; b["v"] = coil::variable(&var);
  b["n"] = [&](Context c) { auto o = c.namedArgs().getOrReport<Odd>("k", coil::NamedArgs::ArgType::Required); ran += (bool)o; }; b["no"] = [&](Context c) { auto o = c.namedArgs().getOrReport<std::optional<Odd>>("k"); if (o) { ran++; held = o->has_value(); } }; b["x"] = overloaded([](Odd) { return 1; }, [](Odd, Odd) { return 2; }); b["g"] = [&](Context c) { auto e = c.namedArgs().get<Odd>("k"); if (e) ran++; else c.reportError(coil::move(e).error().message); };
  struct Case { const char* f; int nest; bool named; } cases[] = {{"f", 0, false}, {"o", 1, false}, {"l", 2, false}, {"lo", 3, false}, {"v", 0, false}, {"n", 0, true}, {"no", 1, true}, {"g", 0, true}};
  for (auto const& c : cases) {
    ExecutionInput in; in.name = c.f; if (c.named) in.namedArguments.pushBack(coil::NamedValue{"k", Value{arg}}); else in.arguments.pushBack(Value{arg}); ran = 0; held = false; auto r = b.execute(in); bool isVar = c.f[0] == 'v';
    if (gOddOk) { CHECKM(r.errors.empty() && (isVar ? var.v == 3 : ran == 1), "what the user's conversion accepts arrives"); if (c.nest & 1) CHECK(held); if (!c.named) { Txt m; if (c.nest >= 2) m.ch('['); m.add(text); if (c.nest >= 2) m.ch(']'); CHECKM(r.returnValue.hasValue() && strIs(*r.returnValue, m), "results are the user's text"); } }
    else { Txt m; auto wrap = [&](const char* a, const char* z) { m.add("Unable to convert '").add(arg).add("' to type '").add(a).add(name).add(z).ch('\''); }; if (c.nest == 1) wrap("optional<", ">"); else if (c.nest == 2) wrap("vector<", ">"); else if (c.nest == 3) { wrap("vector<optional<", ">>"); m.add(": "); wrap("optional<", ">"); } if (c.nest && why.length()) m.add(": "); m.add(why);
      CHECKM(ran == 0 && (!isVar || var.v == 0) && !r.returnValue.hasValue(), "what the user's conversion refuses does not"); CHECKM(r.errors.size() == 1 && strIs(r.errors[0], m), "the user's own refusal is reported"); }
    observeResult(r); }
  auto is = [&](StringView t, const char* a, const char* z) { Txt m; m.add(a).add(name).add(z); return svEq(t, m.view()); }; struct { const char* f; const char *a, *z; } names[] = {{"f", "", ""}, {"o", "optional<", ">"}, {"l", "vector<", ">"}, {"lo", "vector<optional<", ">>"}}; 
  for (auto const& q : names) { auto* c = b.get(q.f); CHECKM(c && c->functors.size() == 1 && is(c->functors[0].returnType(), q.a, q.z) && c->functors[0].parameterTypes().size() == 1 && is(c->functors[0].parameterTypes()[0], q.a, q.z), "the registry gives the user's type name"); }
  { auto* c = b.get("x"); CHECKM(c && c->functors.size() == 2 && c->functors[1].parameterTypes().size() == 2 && is(c->functors[1].parameterTypes()[1], "", ""), "in overload sets as well"); ExecutionInput in; in.name = "x"; auto r = b.execute(in); CHECK(r.errors.size() == 1 && strIs(r.errors[0], "Wrong number of arguments to 'x': expected 1 or 2, got 0")); }
  sym_reach(gOddOk ? "accepted" : "refused"); if (!gOddWhyN) sym_reach("nothing said"); if (gOddNameN > 30) sym_reach("long name");
}
extern "C" void check_user_pair() { // a compound user type, and the library's own errors with the user's name
  static Subs s; s.repr = Txt(); makeSubs(s, sym_choice(4, "count"), 2); Pair got{0, 0}; int ran = 0; Bindings b; b["f"] = [&](Pair p) { ran++; got = p; return p; }; b["k"] = [&](Kilo) { ran += 100; };
  ExecutionInput in; in.name = "f"; in.arguments.pushBack(s.v); auto r = b.execute(in); Txt m;
  if (s.k == 2 && s.at(0).length() == 1 && s.at(1).length() == 1) { sym_reach("pair"); CHECKM(ran == 1 && got.a == s.t[0][0] && got.b == s.t[1][0] && r.errors.empty(), "a compound user value arrives"); Txt w; w.ch(got.a).ch('+').ch(got.b); CHECK(r.returnValue.hasValue() && strIs(*r.returnValue, w)); }
  else { sym_reach("refused"); CHECKM(ran == 0 && r.errors.size() == 1, "refused by the user's conversion"); genericError(m, s.repr.view(), "Pair"); if (s.k != 2) m.add(": Expected 2 subvalues, got ").num(s.k); else { StringView d = s.at(0).length() != 1 ? s.at(0) : s.at(1); if (d.length()) m.add(": ").add(d); } CHECKM(strIs(r.errors[0], m), "the library's error carries the user's type name"); }
  if (s.k != 1) { in.name = "k"; ran = 0; auto q = b.execute(in); Txt w; genericError(w, s.repr.view(), "Kilo thing"); w.add(": Expected 1 subvalues, got ").num(s.k); CHECK(ran == 0 && q.errors.size() == 1 && strIs(q.errors[0], w)); }
  observeResult(r);
}
// C01 C15 C16 C17 C18: texts of every length, and of the lengths around powers of two, for every kind of parameter
extern "C" void check_every_length() {
  size_t i = sym_choice(36, "tens") * 10; i += i == 350 ? 0 : sym_choice(10, "ones"); size_t n = i < 300 ? i + 1 : i < 310 ? 506 + (i - 300) : i < 320 ? 1018 + (i - 310) : i < 330 ? 2042 + (i - 320) : i < 340 ? 4090 + (i - 330) : i < 350 ? 3066 + (i - 340) : 5000; uint32_t g = (uint32_t)sym_param("G", 0); char* t = (char*)malloc(n);
  { StringView v{t, n}; auto bad = [&](auto const& e, const char* type) { CHECKM(!e.hasValue(), "not a value of the type"); Txt m; genericError(m, v, type); CHECKM(e.hasValue() || strIs(e.error(), m), "the error names the whole text and the type"); };
    switch (g) {
      case 0: { sym_bytes(t, n, "text"); for (size_t k = 0; k < n; k++) sym_assume((t[k] > '9') & (t[k] != 'i') & (t[k] != 'I') & (t[k] != 'n') & (t[k] != 'N') & (t[k] != 't') & (t[k] != 'T') & (t[k] != 'f') & (t[k] != 'F')); Value x{v};
        bad(x.get<bool>(), "bool"); bad(x.get<char>(), "char"); bad(x.get<short>(), "short"); bad(x.get<unsigned>(), "unsigned int"); bad(x.get<long>(), "long"); bad(x.get<ull>(), "unsigned long long"); bad(x.get<float>(), "float"); bad(x.get<double>(), "double"); bad(x.get<long double>(), "long double"); sym_reach("garbage"); break; }
      case 1: { sym_bytes(t, n, "text"); Value x{v}; auto s = x.get<String>(); CHECKM(s.hasValue() && strEq(*s, v), "every byte"); auto w = x.get<StringView>(); CHECKM(w.hasValue() && w->data() == t && w->length() == n, "the text itself"); auto d = x.get<std::string>(); CHECKM(d.hasValue() && d->size() == n && bytesEq(d->data(), t, n), "every byte"); auto q = x.get<std::string_view>(); CHECKM(q.hasValue() && q->data() == t && q->size() == n, "the text itself"); auto o = x.get<std::optional<String>>(); CHECKM(o.hasValue() && o->has_value() && strEq(**o, v), "every byte"); CHECKM(strEq(x.str(), v), "and its representation"); sym_reach("text"); break; }
      case 2: { for (size_t k = 0; k + 1 < n; k++) t[k] = '0'; sym_bytes(t + n - 1, 1, "last"); char c = t[n - 1]; sym_assume(isDig(c)); int want = c - '0'; Value x{v}; auto is = [&](auto const& e) { CHECKM(e.hasValue() && (int)*e == want, "the number written"); }; is(x.get<char>()); is(x.get<unsigned char>()); is(x.get<short>()); is(x.get<unsigned short>()); is(x.get<int>()); is(x.get<unsigned>()); is(x.get<long>()); is(x.get<unsigned long>()); is(x.get<long long>()); is(x.get<ull>()); sym_reach("number"); break; }
      case 3: { char c = "05x"[sym_choice(3, "last")]; for (size_t k = 0; k + 1 < n; k++) t[k] = k == 1 ? '.' : '0'; t[0] = '3'; t[n - 1] = c; if (n < 3) break; Value x{v}; auto f = x.get<float>(); auto d = x.get<double>(); auto l = x.get<long double>(); if (c == 'x') { bad(f, "float"); bad(d, "double"); bad(l, "long double"); } else { std::string z(t, n); CHECKM(f.hasValue() && *f == strtof(z.c_str(), nullptr) && d.hasValue() && *d == strtod(z.c_str(), nullptr) && l.hasValue() && *l == strtold(z.c_str(), nullptr), "the number written"); } sym_reach("real"); break; }
      default: { if (n > 300) { sym_reach("big real"); break; } t[0] = '7'; for (size_t k = 1; k < n; k++) t[k] = '0'; Value x{v}; auto d = x.get<double>(); auto l = x.get<long double>(); std::string z(t, n); CHECKM(d.hasValue() && *d == strtod(z.c_str(), nullptr) && l.hasValue() && *l == strtold(z.c_str(), nullptr), "the number written"); sym_reach("big real"); } } }
  free(t);
}
