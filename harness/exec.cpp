// C01 C03 C07 C08 C09 C10: executing commands
#include "grammar.h"
#include "coil/StdLibCompat.h"
#include "coil/detail/Expected.h"
using coil::ExecutionInput; using coil::ExecutionResult; using coil::Expected; using coil::overloaded;

// a user type: accepts exactly the texts that begin with 'k', and counts conversions
static int gConversions, gAlive, gCopies;
struct Kilo {
  char c; Kilo(char c) : c(c) { gAlive++; } Kilo(Kilo const& o) : c(o.c) { gAlive++; gCopies++; } Kilo(Kilo&& o) : c(o.c) { gAlive++; } ~Kilo() { gAlive--; }
  Kilo& operator=(Kilo const&) = default; bool operator==(Kilo const& o) const { return c == o.c; } bool operator!=(Kilo const& o) const { return c != o.c; }
};
template<> struct coil::TypeSerializer<Kilo> {
  static coil::Expected<Kilo, coil::String> fromString(coil::Value const& v) {
    gConversions++;
    if (v.subvalues.size() != 1) return coil::errors::createMismatchedSubvaluesError<Kilo>(v, 1);
    if (v.subvalues[0].length() == 0 || v.subvalues[0][0] != 'k') return coil::errors::createGenericError<Kilo>(v, "not a k");
    return Kilo{v.subvalues[0].length() > 1 ? v.subvalues[0][1] : 'k'};
  }
  static coil::String toString(Kilo const& k) { coil::String s; s += k.c; return s; }
};
COIL_CREATE_TYPE_NAME(Kilo, "Kilo");

// ---------------------------------------------------------------- C01
static int gVar; static bool gFlag; static int const gConst = 5;
struct Obj { int v = 3; int get() const { return v; } void set(int x) { v = x; } int add(int x, int y) { return (int)((unsigned)v + (unsigned)x + (unsigned)y); } };
static void bindAll(Bindings& b, Obj& o) {
  b["i"] = [](int x) { return x; };
  b["u"] = [](unsigned char x) { return x; };
  b["l"] = [](long long x, unsigned long long y) { return (x > 0) == (y > 0); };
  b["b"] = [](bool x) { return x; };
  b["d"] = [](double x, float y) { return x < y; };
  b["s"] = [](String s) { return s; };
  b["w"] = [](StringView s, std::string t) { return t.size() == s.length() ? String{s} : String{"-"}; };
  b["v"] = [](std::vector<int> v) { unsigned s = 0; for (int x : v) s += (unsigned)x; return s; };
  b["o"] = [](std::optional<short> v) { return v; };
  b["a"] = [](Context c, Value const& v) { (void)c; return v.str(); };
  b["c"] = [](Context c, Value v) { for (auto s : v.subvalues) c.logline(String{s}); c.loglinef("%d", (int)v.subvalues.size()); if (v.subvalues.size() == 1) c.reportError("one"); };
  b["n"] = [](Context c) { auto n = c.namedArgs(); auto x = n.getOrReport<int>("x", coil::NamedArgs::ArgType::Required); auto y = n.getOrReport<String>("y", coil::NamedArgs::ArgType::Optional, String{"dflt"}); for (auto& a : n) c.log(String{a.key}); return (x ? *x : 0) == (int)(y ? (*y).length() : 0); };
  b["x"] = coil::variable(&gVar); b["y"] = coil::variable(&gFlag); b["z"] = coil::variable(&gConst);
  b["p"] = coil::bindProperty(&Obj::get, &Obj::set, &o); b["q"] = coil::bindProperty(&Obj::get, &o);
  b["m"] = coil::bind(&Obj::add, &o);
  b["g"] = overloaded([] { return "none"; }, [](Kilo k) { return k; }, [](int, Kilo const& k) { return k.c == 'k'; });
  b["t"] = [](int x) { if (x == 0) throw std::runtime_error("zero"); if (x < 0) throw x; return x; };
  b["e"] = [](std::vector<std::optional<bool>> v) { return v; };
}
static const char* const NAMES = "iulbdswvoacnxyzpqmgte";
static bool hasUf(char c) { return c == 'd'; }
extern "C" void check_safe_command() {
  uint32_t c = sym_param("C", 0); size_t n = sym_param("N", 3);
  gVar = 1; gFlag = false; Line line(n + 2); sym_assume(line.p[0] == NAMES[c]); sym_assume(line.p[1] == ' ');
  gAlive = 0;
  { Obj o; Bindings b; bindAll(b, o);
    auto r = b.execute(line.view());
    if (r.errors.empty()) sym_reach("ran"); else sym_reach("reported");
    if (!hasUf(NAMES[c])) observeResult(r); }
  CHECKM(gAlive == 0, "every argument object is destroyed");
}
// any line at all, with commands whose names appear in it
extern "C" void check_safe_line() {
  Line line(sym_param("N", 3)); gAlive = 0;
  { Obj o; Bindings b; b["f"] = overloaded([] {}, [](int x) { return x; }, [](Value v, Kilo k) { return k; }); b[""] = [] {}; b["fo"] = [](Context c) { c.log("x"); };
    auto r = b.execute(line.view()); if (r.errors.empty()) sym_reach("ran"); else sym_reach("reported");
    observeResult(r); }
  CHECKM(gAlive == 0, "every argument object is destroyed");
}
// long lines: every byte symbolic inside one quoted argument; long messages
extern "C" void check_safe_long() {
  size_t n = sym_param("N", 200); uint32_t k = sym_choice(4, "kind"); char* t = (char*)malloc(n + 4); t[0] = "suaq"[k]; t[1] = ' '; t[2] = '\''; sym_bytes(t + 3, n, "text"); for (size_t i = 0; i < n; i++) { uchar c = (uchar)t[3 + i]; sym_assume((c != 39) & (c != 34)); if (k == 1 || k == 3) sym_assume((c > 32) & ((c < '0') | (c > '9')) & (c != '-') & (c != '+')); } t[n + 3] = '\'';
  { Obj o; Bindings b; bindAll(b, o); auto r = b.execute(StringView{t, n + 4}); if (k == 0 || k == 2) { sym_reach("ran"); CHECK(r.errors.empty() && r.returnValue.hasValue() && strEq(*r.returnValue, StringView{t + 3, n})); } else { sym_reach("reported"); CHECK(r.errors.size() == 1 && !r.returnValue.hasValue()); if (k == 1) { Txt m("Unable to convert '"); m.add(t + 3, n).add("' to type 'unsigned char'"); CHECK(strIs(r.errors[0], m)); } } }
  free(t);
}

// ---------------------------------------------------------------- C03
static void malformed(const char* p, size_t n) {
  static RParse ref; refParse(DEFAULT_DELIMS, p, (int)n, ref); gConversions = 0;
  { int ran = 0; Bindings b;
    b["f"] = overloaded([&] { ran++; return 1; }, [&](Kilo) { ran++; return 2; }, [&](Kilo, Kilo) { ran++; }); b["g"] = [&](Context c, Value) { ran++; c.log("g"); c.reportError("Some error"); };
    size_t again = sym_param("AGAIN", 0); for (size_t turn = 0; turn <= again; turn++) { ran = 0; gConversions = 0; // (again: the same line once more on the same registry)
    auto r = b.execute(StringView{p, n});
    if (ref.err) {
      sym_reach("malformed");
      CHECKM(ran == 0, "a malformed line runs nothing"); CHECKM(gConversions == 0, "a malformed line converts nothing");
      CHECKM(r.errors.size() == 1, "a malformed line gives one error"); CHECKM(r.output.empty() && !r.returnValue.hasValue(), "a malformed line gives no output and no return value");
      if (r.errors.size() == 1) { Txt m("Syntax error: "); Txt d; refMessage(p, ref, d); m.add(d.view()); CHECKM(strIs(r.errors[0], m), "the error is the parser's message"); }
    } else {
      for (size_t i = 0; i < r.errors.size(); i++) CHECKM(!(r.errors[i].length() >= 12 && bytesEq(r.errors[i].cStr(), "Syntax error", 12)), "no syntax error for a well-formed line");
      if (ran) sym_reach("ran");
    }
    observeResult(r); sym_observe(ran, "ran"); } }
}
extern "C" void check_malformed() { Line line(sym_param("N", 4)); malformed(line.p, line.n); }
extern "C" void check_malformed_args() { Txt t; argLine(t, sym_param("K", 2)); char* p = (char*)malloc(t.n); for (size_t i = 0; i < t.n; i++) p[i] = t.b[i]; malformed(p, t.n); free(p); }

// ---------------------------------------------------------------- C07
struct Which { int id = -1, calls = 0, argc = -1; };
template<int A> static coil::AnyFunctor overload(Which* w, int id, bool ctx) {
  using coil::detail::createAnyFunctor;
  auto hit = [w, id](int argc) { w->id = id; w->calls++; w->argc = argc; };
  if constexpr (A == 0) return ctx ? createAnyFunctor([hit](Context) { hit(0); }) : createAnyFunctor([hit]() { hit(0); });
  else if constexpr (A == 1) return ctx ? createAnyFunctor([hit](Context, Value) { hit(1); }) : createAnyFunctor([hit](StringView) { hit(1); });
  else if constexpr (A == 2) return ctx ? createAnyFunctor([hit](Context, Value, StringView) { hit(2); }) : createAnyFunctor([hit](Value, Value) { hit(2); });
  else return ctx ? createAnyFunctor([hit](Context, Value, Value, Value) { hit(3); }) : createAnyFunctor([hit](Value, StringView, Value) { hit(3); });
}
static coil::AnyFunctor overloadOf(int a, Which* w, int id, bool ctx) { switch (a) { case 0: return overload<0>(w, id, ctx); case 1: return overload<1>(w, id, ctx); case 2: return overload<2>(w, id, ctx); default: return overload<3>(w, id, ctx); } }
extern "C" void check_overload() {
  size_t count = 1 + sym_choice(sym_param("F", 3), "overloads"); int arity[5]; Which w; Bindings b; b["other"] = [&] { w.calls += 100; };
  { coil::Vector<coil::AnyFunctor> fs; for (size_t i = 0; i < count; i++) { arity[i] = sym_choice(4, "arity"); fs.pushBack(overloadOf(arity[i], &w, (int)i, sym_choice(2, "context") != 0)); } b["fn"] = coil::move(fs); }
  ExecutionInput in; in.name = "fn"; char text[8]; sym_bytes(text, 8, "text"); size_t na = sym_choice(5, "args"), nn = sym_choice(2, "named") * 2;
  for (size_t i = 0; i < na; i++) in.arguments.pushBack(Value{StringView{text + i, 1}});
  for (size_t i = 0; i < nn; i++) in.namedArguments.pushBack(coil::NamedValue{StringView{text + 5 + i, 1}, Value{"v"}});
  int expect = -1; for (size_t i = 0; i < count && expect < 0; i++) if ((size_t)arity[i] == na) expect = (int)i;
  auto r = b.execute(in);
  if (expect >= 0) { sym_reach("match"); CHECKM(w.calls == 1 && w.id == expect && w.argc == (int)na, "the first overload with that many parameters runs, once"); CHECKM(r.errors.empty(), "no error"); }
  else {
    sym_reach("none"); CHECKM(w.calls == 0, "nothing runs without a matching overload");
    Txt m("Wrong number of arguments to 'fn': expected "); for (size_t i = 0; i < count; i++) { if (i) m.add(i + 1 == count ? " or " : ", "); m.num(arity[i]); } m.add(", got ").num(na);
    CHECKM(r.errors.size() == 1 && strIs(r.errors[0], m), "the error states the accepted counts and the number received"); CHECK(!r.returnValue.hasValue() && r.output.empty());
  }
  observeResult(r);
}
// through text, with compound and named arguments in any position
extern "C" void check_overload_line() {
  Which w; Bindings b; b["f"] = overloaded([&](Value, Value) { w.id = 2; w.calls++; }, [&] { w.id = 0; w.calls++; return 0; }, [&](Context, Value) { w.id = 1; w.calls++; }, [&](Value) { w.id = 9; w.calls++; });
  size_t n = sym_param("N", 4); Line line(n + 2); sym_assume(line.p[0] == 'f'); sym_assume(line.p[1] == ' '); static RParse ref; refParse(DEFAULT_DELIMS, line.p, (int)line.n, ref);
  auto r = b.execute(line.view()); if (ref.err) { CHECK(w.calls == 0); return; }
  if (ref.na <= 2) { CHECKM(w.calls == 1 && w.id == ref.na, "the matching overload runs"); CHECK(r.errors.empty()); if (ref.nn) sym_reach("with named"); sym_reach("ran"); }
  else { sym_reach("wrong count"); CHECK(w.calls == 0); Txt m("Wrong number of arguments to 'f': expected 2, 0, 1 or 1, got "); m.num(ref.na); CHECKM(r.errors.size() == 1 && strIs(r.errors[0], m), "wrong-count error"); }
  observeResult(r);
}
extern "C" void check_overload_wide() {
  Which w; Bindings b; using V = Value const&; size_t na = sym_choice(13, "args");
  b["f"] = overloaded([&](V, V, V, V, V, V, V, V, V, V, V) { w.id = 11; w.calls++; }, [&](V, V, V, V, V, V, V, V, V, V) { w.id = 10; w.calls++; }, [&](Context, V, V, V, V, V) { w.id = 5; w.calls++; }, [&](V, V, V, V, V, V, V) { w.id = 7; w.calls++; });
  ExecutionInput in; in.name = "f"; char t[16]; sym_bytes(t, 16, "text"); for (size_t i = 0; i < na; i++) in.arguments.pushBack(Value{StringView{t + i, 1}});
  auto r = b.execute(in);
  if (na == 5 || na == 7 || na == 10 || na == 11) CHECK(w.calls == 1 && w.id == (int)na && r.errors.empty());
  else { Txt m("Wrong number of arguments to 'f': expected 11, 10, 5 or 7, got "); m.num(na); CHECK(w.calls == 0 && r.errors.size() == 1 && strIs(r.errors[0], m)); sym_reach("none"); }
  observeResult(r);
}

// ---------------------------------------------------------------- C08
// reference conversions
static bool refInt(StringView t, long lo, long hi, long& out) { // t is at most a few characters: no overflow of long
  size_t i = 0; auto sp = [](char c) { return c == ' ' || (c >= 9 && c <= 13); }; while (i < t.length() && sp(t[i])) i++;
  bool neg = false; if (i < t.length() && (t[i] == '-' || t[i] == '+')) { neg = t[i] == '-'; i++; }
  if (i >= t.length()) return false; long v = 0;
  for (; i < t.length(); i++) { if (t[i] < '0' || t[i] > '9') return false; v = v * 10 + (t[i] - '0'); }
  if (neg) { if (lo == 0) return false; v = -v; } if (v < lo || v > hi) return false; out = v; return true;
}
static bool refBool(StringView t, bool& out) {
  auto ci = [&](const char* w) { if (t.length() != strlen(w)) return 0; int r = 1; for (size_t i = 0; i < t.length(); i++) r &= (t[i] == w[i]) | (t[i] == w[i] - 32); return r; };
  if (t.length() == 1 && t[0] == '0') { out = false; return true; } if (t.length() == 1 && t[0] == '1') { out = true; return true; }
  if (ci("true")) { out = true; return true; } if (ci("false")) { out = false; return true; } return false;
}
struct Arg { StringView sub[2]; size_t n; };
static void convErr(Txt& m, Arg const& a, const char* type, const char* detail = nullptr) {
  m.add("Unable to convert '"); for (size_t i = 0; i < a.n; i++) { if (i) m.ch(' '); m.add(a.sub[i]); } m.add("' to type '").add(type).ch('\'');
  if (a.n != 1) m.add(": Expected 1 subvalues, got ").num(a.n); else if (detail) m.add(": ").add(detail);
}
extern "C" void check_all_or_nothing() {
  size_t len = sym_param("N", 2); char text[4][8]; Arg a[4]; Bindings b; int ran = 0; long gi = -1; long gu = -1; int gb = -1; char gk = 0;
  uint32_t form = sym_choice(3, "form"); size_t na = form == 0 ? 4 : form == 1 ? 2 : 3;
  b["f"] = overloaded([&](int i, unsigned char u, bool t, Kilo k) { ran++; gi = i; gu = u; gb = t; gk = k.c; return 7; }, [&](Context, Kilo const& k, int i) { ran++; gk = k.c; gi = i; return 7; }, [&](bool const& t, Value v, unsigned char u) { ran++; gb = t; gu = u; return 7; });
  ExecutionInput in; in.name = "f";
  for (size_t i = 0; i < na; i++) { sym_bytes(text[i], len, "text"); a[i].n = sym_param("SUBS", 1) ? sym_choice(3, "subs") : 1; a[i].sub[0] = StringView{text[i], len}; a[i].sub[1] = StringView{text[i], 1};
    for (size_t k = 0; k < len; k++) sym_assume(text[i][k] != 0);
    Value v{coil::Vector<StringView>{}}; for (size_t k = 0; k < a[i].n; k++) v.subvalues.pushBack(a[i].sub[k]); in.arguments.pushBack(v); }
  gConversions = 0; gAlive = 0;
  coil::Vector<String> errs; auto err = [&](Arg const& x, const char* type, const char* d = nullptr) { Txt m; convErr(m, x, type, d); errs.pushBack(String{m.view()}); };
  long vi = 0, vu = 0; bool vb = false; char vk = 0;
  auto doInt = [&](Arg const& x) { if (x.n != 1 || !refInt(x.sub[0], -2147483648L, 2147483647L, vi)) err(x, "int"); };
  auto doUc = [&](Arg const& x) { if (x.n != 1 || !refInt(x.sub[0], 0, 255, vu)) err(x, "unsigned char"); };
  auto doBool = [&](Arg const& x) { if (x.n != 1 || !refBool(x.sub[0], vb)) err(x, "bool"); };
  auto doKilo = [&](Arg const& x) { if (x.n != 1) err(x, "Kilo"); else if (x.sub[0].length() == 0 || x.sub[0][0] != 'k') err(x, "Kilo", "not a k"); else vk = x.sub[0].length() > 1 ? x.sub[0][1] : 'k'; };
  if (form == 0) { doInt(a[0]); doUc(a[1]); doBool(a[2]); doKilo(a[3]); } else if (form == 1) { doKilo(a[0]); doInt(a[1]); } else { doBool(a[0]); doUc(a[2]); }
  { auto r = b.execute(in);
    if (errs.empty()) {
      sym_reach("all convert"); CHECKM(ran == 1 && r.errors.empty(), "the command runs when every argument converts"); CHECK(r.returnValue.hasValue() && strIs(*r.returnValue, "7"));
      if (form == 0) CHECKM(gi == vi && gu == vu && gb == (int)vb && gk == vk, "the converted values arrive"); else if (form == 1) CHECK(gi == vi && gk == vk); else CHECK(gb == (int)vb && gu == vu);
    } else {
      sym_reach("some bad"); if (errs.size() > 1) sym_reach("several bad");
      CHECKM(ran == 0, "a command with a bad argument does not run"); CHECKM(!r.returnValue.hasValue(), "no return value"); CHECK(r.output.empty());
      CHECKM(r.errors.size() == errs.size(), "one error per bad argument"); for (size_t i = 0; i < errs.size() && i < r.errors.size(); i++) CHECKM(strEq(r.errors[i], errs[i]), "the error names the text and the type");
    }
    observeResult(r); sym_observe(ran, "ran"); }
  CHECKM(gAlive == 0, "argument objects are destroyed");
}
// many parameters, each good or bad
extern "C" void check_all_or_nothing_wide() {
  Bindings b; int ran = 0; b["f"] = [&](bool, bool, bool, bool, bool, bool, bool, bool, bool) { ran++; };
  ExecutionInput in; in.name = "f"; char t[9]; for (int i = 0; i < 9; i++) { sym_bytes(t + i, 1, "t"); sym_assume((t[i] == '0') | (t[i] == 'x')); in.arguments.pushBack(Value{StringView{t + i, 1}}); }
  size_t bad = 0; for (int i = 0; i < 9; i++) bad += t[i] == 'x';
  auto r = b.execute(in); CHECKM(r.errors.size() == bad, "one error per bad argument"); CHECKM(ran == (bad == 0), "runs only when all convert"); if (bad == 9) sym_reach("all bad"); observeResult(r);
}
// very many parameters, int and text in turn; up to two bad ones at chosen places; the right number, one less, one more
template<size_t... I> static auto wideCommand(std::index_sequence<I...>, int& ran, bool& fine, const char* t) {
  return [&ran, &fine, t](Context c, std::conditional_t<I % 2, StringView, signed char>... a) { ran++; auto ok = [&](size_t i, auto v) { if constexpr (std::is_same_v<decltype(v), StringView>) return v.length() == 1 && v.data()[0] == t[i]; else return v == t[i] - '0'; }; fine = (true & ... & ok(I, a)); return (int)sizeof...(I); }; }
extern "C" void check_params_wide() {
  enum { W = 4 }; static const size_t NP[W] = {17, 34, 66, 130}; uint32_t w = (uint32_t)sym_param("W", 0); size_t np = NP[w], extra = sym_choice(3, "given"), na = np + extra - 1; static char t[140]; int ran = 0; bool fine = false; sym_bytes(t, na, "text"); for (size_t i = 0; i < na; i++) if (i % 2 == 0) sym_assume((t[i] >= '0') & (t[i] <= '9')); Bindings b;
  static const size_t AT_[] = {0, 2, 6, 8, 14, 16, 30, 32, 62, 64, 126, 128}; size_t x = AT_[sym_choice(12, "bad")], y = AT_[sym_choice(12, "bad")]; uint32_t many = sym_choice(3, "many"); if (extra != 1 && (x || y || many)) return; if (many < 2 && y) return; if (many == 0 && x) return; if ((many && x >= np) || (many == 2 && (y >= np || y <= x))) return;
  if (many) t[x] = 'x'; if (many == 2) t[y] = 'y';
  switch (w) { case 0: b["f"] = wideCommand(std::make_index_sequence<17>{}, ran, fine, t); break; case 1: b["f"] = wideCommand(std::make_index_sequence<34>{}, ran, fine, t); break; case 2: b["f"] = wideCommand(std::make_index_sequence<66>{}, ran, fine, t); break; default: b["f"] = wideCommand(std::make_index_sequence<130>{}, ran, fine, t); }
  ExecutionInput in; in.name = "f"; for (size_t i = 0; i < na; i++) in.arguments.pushBack(Value{StringView{t + i, 1}}); auto r = b.execute(in); auto* c = b.get("f"); CHECKM(c && c->functors.size() == 1 && c->functors[0].arity() == np, "the number of parameters is what the signature says");
  if (extra != 1) { Txt m("Wrong number of arguments to 'f': expected "); m.num(np).add(", got ").num(na); CHECKM(ran == 0 && r.errors.size() == 1 && strIs(r.errors[0], m) && !r.returnValue.hasValue(), "a wrong number of arguments runs nothing"); sym_reach("wrong count"); return; }
  CHECKM(r.errors.size() == many && ran == (many == 0) && r.returnValue.hasValue() == (many == 0), "runs exactly when all convert; one error per bad argument"); if (!many) { Txt m; m.num(np); CHECKM(fine && strIs(*r.returnValue, m), "every argument reaches its parameter"); sym_reach("all good"); return; }
  for (size_t i = 0; i < many; i++) { Txt m("Unable to convert '"); m.ch(i ? 'y' : 'x').add("' to type 'signed char'"); CHECKM(strIs(r.errors[i], m), "in order, naming text and type"); } sym_reach("bad");
}
template<size_t... I> static auto wideId(std::index_sequence<I...>, int& ran, int& id, int which) { return [&ran, &id, which](std::conditional_t<(I > 9999), int, Value const&>...) { ran++; id = which; }; }
// overloads whose numbers of parameters are far apart, in both orders
template<size_t A, size_t B> static void farApart() {
  int ran = 0, id = -1; Bindings b; using coil::overloaded; b["f"] = overloaded(wideId(std::make_index_sequence<A>{}, ran, id, 0), wideId(std::make_index_sequence<B>{}, ran, id, 1)); const size_t NA[] = {A, B, A + 1, B + 1, 0, 1, A > B ? A - B : B - A}; size_t na = NA[sym_choice(7, "given")];
  ExecutionInput in; in.name = "f"; char t[4]; sym_bytes(t, 4, "text"); for (size_t i = 0; i < na; i++) in.arguments.pushBack(Value{StringView{t + i % 4, 1}}); auto r = b.execute(in); if (na == A || na == B) { CHECKM(ran == 1 && id == (na == B && A != B) && r.errors.empty(), "the overload with that many parameters runs"); sym_reach("match"); } else { Txt m("Wrong number of arguments to 'f': expected "); m.num(A).add(" or ").num(B).add(", got ").num(na); CHECKM(ran == 0 && r.errors.size() == 1 && strIs(r.errors[0], m), "no overload runs"); sym_reach("none"); }
}
extern "C" void check_overload_far() {
  switch (sym_choice(14, "pair")) { case 0: farApart<1, 9>(); break; case 1: farApart<17, 1>(); break; case 2: farApart<2, 34>(); break; case 3: farApart<33, 1>(); break; case 4: farApart<65, 1>(); break; case 5: farApart<1, 65>(); break; case 6: farApart<64, 0>(); break; case 7: farApart<0, 64>(); break; case 8: farApart<129, 1>(); break; case 9: farApart<128, 0>(); break; case 10: farApart<8, 0>(); break; case 11: farApart<16, 0>(); break; case 12: farApart<32, 0>(); break; default: farApart<200, 72>(); }
}

// ---------------------------------------------------------------- C09
extern "C" void check_result() {
  size_t steps = sym_param("K", 3); uint32_t act[6]; char e[6][2]; for (size_t i = 0; i < steps; i++) { act[i] = sym_choice(7, "action"); sym_bytes(e[i], 2, "text"); sym_assume(e[i][0] != 0); sym_assume(e[i][1] != 0); }
  uint32_t ret = sym_choice(4, "return"); int value = (int)sym_u32("value"); sym_assume(value >= 0 && value < 100); coil::Vector<String> want; bool has = false; Bindings b; bool wrong = false; Txt out;
  auto body = [&](Context c) {
    for (size_t i = 0; i < steps; i++) {
      if (c.hasErrors() != (want.size() > 0)) wrong = true;
      switch (act[i]) {
        case 0: break;
        case 1: c.reportError(String{StringView{e[i], 2}}); want.pushBack(String{StringView{e[i], 2}}); break;
        case 2: c.log(String{StringView{e[i], 2}}); out.add(e[i], 2); break;
        case 3: c.reportErrors("first", String{StringView{e[i], 1}}); want.pushBack("first"); want.pushBack(String{StringView{e[i], 1}}); break;
        case 4: c.namedArgs().getOrReport("absent", coil::NamedArgs::ArgType::Required); want.pushBack("Missing named argument 'absent'"); break;
        case 5: { Context d = c; d.reportError(""); want.pushBack(""); break; }
        case 6: { auto r = b.execute("nope"); if (r.errors.size() != 1 || r.returnValue.hasValue()) wrong = true; break; } // another execution's errors are not ours
      }
    }
  };
  b["v"] = [&](Context c) { body(c); }; b["i"] = [&](Context c) { body(c); return value; }; b["s"] = [&](Context c) { body(c); return String{"txt"}; }; b["e"] = [&](Context c) { body(c); return StringView{""}; };
  ExecutionInput in; in.name = ret == 0 ? "v" : ret == 1 ? "i" : ret == 2 ? "s" : "e"; in.namedArguments.pushBack(coil::NamedValue{"k", Value{"w"}});
  auto r = b.execute(in);
  CHECKM(!wrong, "hasErrors tells whether an error was reported");
  CHECKM(r.errors.size() == want.size(), "every reported error appears once"); for (size_t i = 0; i < want.size() && i < r.errors.size(); i++) CHECKM(strEq(r.errors[i], want[i]), "errors appear in order");
  has = want.empty() && ret != 0; CHECKM(r.returnValue.hasValue() == has, "a return value exactly when a non-void command succeeded");
  if (has && r.returnValue.hasValue()) { Txt m; if (ret == 1) m.num(value); else if (ret == 2) m.add("txt"); CHECKM(strIs(*r.returnValue, m), "the return value is the text of what was returned"); sym_reach("value"); }
  if (!want.empty() && ret) sym_reach("suppressed"); CHECKM(strIs(r.output, out), "the output is kept");
  CHECKM(svEq(r.input.name, in.name) && r.input.arguments.size() == 0 && r.input.namedArguments.size() == 1 && svIs(r.input.namedArguments[0].key, "k"), "the result echoes the input");
  observeResult(r);
}
// the same command run again after what it returns has changed: every result is of its own moment, and earlier results stay what they were
struct Follow { unsigned n; Follow* self() { return this; } bool operator==(Follow const& o) const { return n == o.n; } bool operator!=(Follow const& o) const { return n != o.n; } };
template<> struct coil::TypeSerializer<Follow> { static coil::String toString(Follow const& f) { coil::String s = "f"; s += (char)('0' + f.n % 10); return s; } };
COIL_CREATE_TYPE_NAME(Follow, "Follow");
extern "C" void check_result_follows() {
  size_t K = sym_param("K", 3); unsigned short u = 0; bool flag = false; char txt[3] = {0, 0, 0}; String str; std::string sstr; std::vector<unsigned short> vec; std::optional<unsigned short> opt; Follow fo{0}; Follow* nothing = nullptr; Value val; char const* cs = txt; unsigned short const* pick = nullptr; unsigned short other = 7;
  Bindings b; b["i"] = [&] { return u; }; b["r"] = [&]() -> unsigned short const& { return u; }; b["m"] = [&]() -> unsigned short& { return u; }; b["p"] = [&] { return &u; }; b["q"] = [&]() -> unsigned short const* { return pick; }; b["b"] = [&] { return &flag; }; b["c"] = [&] { return cs; }; b["s"] = [&]() -> String const& { return str; }; b["x"] = [&]() -> String* { return &str; }; b["t"] = [&]() -> std::string const& { return sstr; }; b["w"] = [&] { return StringView{str}; };
  b["y"] = [&] { return std::string_view{sstr}; }; b["v"] = [&]() -> std::vector<unsigned short> const& { return vec; }; b["a"] = [&]() -> std::vector<unsigned short>* { return &vec; }; b["o"] = [&]() -> std::optional<unsigned short> const& { return opt; }; b["f"] = [&] { return fo.self(); }; b["n"] = [&] { return nothing; }; b["l"] = [&]() -> Value const& { return val; }; b["d"] = [&](Context) -> Follow const& { return fo; };
  static const char* const all[] = {"i", "r", "m", "p", "q", "b", "c", "s", "x", "t", "w", "y", "v", "a", "o", "f", "n", "l", "d"}; uint32_t which = sym_choice(19, "command"); char const* name = all[which]; uint32_t second = sym_choice(3, "between"); ExecutionResult kept; Txt keptText;
  for (size_t k = 0; k < K; k++) {
    { static unsigned short const some[] = {0, 5, 14, 18, 31, 55, 98, 65535}; u = some[sym_choice(8, "value")]; } flag = u & 1; str = ""; if (u & 2) str = "long enough to be kept on the heap"; txt[0] = (char)('a' + u % 26); txt[1] = u & 4 ? 'z' : 0; str += txt; sstr = txt; vec.resize(u % 4); for (auto& e : vec) e = u; if (u & 8) opt = u; else opt.reset(); fo.n = u; nothing = u & 16 ? &fo : nullptr; pick = u & 1 ? &u : &other; val = Value{StringView{str}};
    Txt m; switch (which) { case 0: case 1: case 2: case 3: m.num(u); break; case 4: m.num(u & 1 ? u : 7); break; case 5: m.add(u & 1 ? "true" : "false"); break; case 6: case 9: case 11: m.add((char const*)txt); break; case 7: case 8: case 10: case 17: m.add(StringView{str}); break; case 12: case 13: m.ch('['); for (unsigned i = 0; i < u % 4u; i++) { if (i) m.add(", "); m.num(u); } m.ch(']'); break; case 14: if (u & 8) m.num(u); break;
      case 15: case 18: m.ch('f').ch((char)('0' + u % 10)); break; default: if (u & 16) m.ch('f').ch((char)('0' + u % 10)); else m.add("null"); break; }
    auto r = b.execute(name); CHECKM(r.errors.empty() && r.returnValue.hasValue() && strIs(*r.returnValue, m), "the text of what was returned this time"); if (k == 0) { kept = r; keptText = m; } else CHECKM(kept.returnValue.hasValue() && strIs(*kept.returnValue, keptText), "an earlier result stays what it was"); if (second == 1) b.execute("i"); else if (second == 2) { b["i"] = [&] { return u; }; b.execute(all[(which + 3) % 19]); } observeResult(r);
  }
  sym_reach("followed");
}
// the echoed input, from text
extern "C" void check_result_echo() {
  Line line(sym_param("N", 4)); static RParse ref; refParse(DEFAULT_DELIMS, line.p, (int)line.n, ref); Bindings b; b["f"] = overloaded([] { return 1; }, [](Context c, Value) { c.reportError("e"); return 1; }, [](int, int) { return 1; }); b["g"] = [](Value) {};
  auto r = b.execute(line.view()); observeResult(r); if (ref.err || ref.empty) return;
  CHECKM(spanIs(r.input.name, line.p, ref.name) && r.input.arguments.size() == (size_t)ref.na && r.input.namedArguments.size() == (size_t)ref.nn, "the result echoes the input");
  for (int i = 0; i < ref.na && i < (int)r.input.arguments.size(); i++) CHECK(valueIs(r.input.arguments[i], line.p, ref.a[i]));
  for (int i = 0; i < ref.nn && i < (int)r.input.namedArguments.size(); i++) CHECK(spanIs(r.input.namedArguments[i].key, line.p, ref.key[i]) && valueIs(r.input.namedArguments[i].value, line.p, ref.v[i]));
  CHECKM(!(r.returnValue.hasValue() && r.errors.size()), "never both a return value and errors"); if (r.returnValue.hasValue()) sym_reach("value"); else sym_reach("none");
}

// ---------------------------------------------------------------- C10
extern "C" void check_names() {
  size_t nr = sym_param("R", 2), nq = sym_param("Q", 2); char reg[8], q[8]; sym_bytes(reg, nr, "registered"); sym_bytes(q, nq, "queried"); int ran = 0, other = 0; bool fixed = nq == 2 && q[0] == 'a' && q[1] == 'b'; bool sameAsFixed = nr == 2 && reg[0] == 'a' && reg[1] == 'b'; sym_assume(!sameAsFixed);
  Bindings b; b["ab"] = [&] { other++; }; b[StringView{reg, nr}] = [&] { ran++; }; ExecutionInput in; in.name = StringView{q, nq};
  bool hit = nq == nr && bytesEq(q, reg, nq); auto r = b.execute(in);
  if (nq == 0) { CHECKM(ran == 0 && other == 0 && r.errors.size() == 1 && strIs(r.errors[0], "No function name is specified"), "an empty name is reported"); sym_reach("empty"); }
  else if (hit) { sym_reach("found"); CHECKM(ran == 1 && other == 0 && r.errors.empty(), "an exactly matching name runs"); }
  else if (fixed) { CHECKM(other == 1 && ran == 0 && r.errors.empty(), "the other name runs"); }
  else {
    sym_reach("unknown"); CHECKM(ran == 0 && other == 0, "an unknown name runs nothing"); CHECK(r.errors.size() == 1 && !r.returnValue.hasValue() && r.output.empty());
    Txt m("No function '"); m.add(q, nq).add("' is registered"); if (r.errors.size() == 1) CHECKM(strIs(r.errors[0], m), "the error quotes the name in full");
  }
  CHECKM(svEq(r.input.name, StringView{q, nq}), "the result echoes the name");
  observeResult(r);
}
extern "C" void check_blank() {
  Line line(sym_param("N", 3)); for (size_t i = 0; i < line.n; i++) sym_assume(inSet(DEFAULT_DELIMS.space, 4, line.p[i])); int ran = 0; Bindings b; b[""] = overloaded([&] { ran++; }, [&](Value) { ran++; }); b[" "] = [&] { ran++; };
  auto r = b.execute(line.view()); CHECKM(ran == 0 && r.errors.size() == 1 && strIs(r.errors[0], "No function name is specified") && !r.returnValue.hasValue(), "a blank line is reported as having no name");
  auto r2 = b.execute("'' x"); CHECK(ran == 0 && r2.errors.size() == 1 && strIs(r2.errors[0], "No function name is specified")); ExecutionInput in; auto r3 = b.execute(in); CHECK(ran == 0 && r3.errors.size() == 1 && strIs(r3.errors[0], "No function name is specified")); sym_reach("blank"); observeResult(r);
}
// names met as text; case, prefixes, quotes
extern "C" void check_name_line() {
  Line line(sym_param("N", 3)); static RParse ref; refParse(DEFAULT_DELIMS, line.p, (int)line.n, ref); if (ref.err) return; int ran[4] = {0, 0, 0, 0}; Bindings b;
  b["ab"] = [&] { ran[0]++; }; b["a"] = [&] { ran[1]++; }; b["A"] = [&] { ran[2]++; }; b["a b"] = [&] { ran[3]++; };
  auto r = b.execute(line.view()); StringView name{line.p + ref.name.off, (size_t)ref.name.len}; const char* N[4] = {"ab", "a", "A", "a b"}; int k = -1; if (!ref.empty) for (int i = 0; i < 4; i++) if (svIs(name, N[i])) k = i;
  for (int i = 0; i < 4; i++) CHECKM(ran[i] == (i == k && ref.na == 0), "exactly the named command runs");
  if (k >= 0) sym_reach("known"); else if (!ref.empty && name.length()) { sym_reach("unknown"); Txt m("No function '"); m.add(name).add("' is registered"); CHECK(r.errors.size() == 1); if (r.errors.size() == 1) CHECKM(strIs(r.errors[0], m), "unknown names are quoted"); }
  else CHECK(r.errors.size() == 1 && strIs(r.errors[0], "No function name is specified"));
  observeResult(r);
}
// long names
extern "C" void check_name_long() {
  size_t n = sym_param("N", 150); char* q = (char*)malloc(n); sym_bytes(q, n, "name"); for (size_t i = 0; i < n; i++) sym_assume(q[i] != 0);
  { Bindings b; int ran = 0; if (sym_choice(2, "registered")) { b[StringView{q, n}] = [&] { ran++; }; char save = q[n - 1]; ExecutionInput in; in.name = StringView{q, n}; auto r = b.execute(in); CHECK(ran == 1 && r.errors.empty()); sym_reach("found"); (void)save; }
    else { b["x"] = [&] { ran++; }; ExecutionInput in; in.name = StringView{q, n}; auto r = b.execute(in); Txt m("No function '"); m.add(q, n).add("' is registered"); CHECK(ran == 0 && r.errors.size() == 1 && strIs(r.errors[0], m)); sym_reach("unknown"); } }
  free(q);
}
