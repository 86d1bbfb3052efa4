// C11 C12 C13 C30: exceptions, isolation, the registry as a map, lifetimes
#include "common.h"
#include "coil/StdLibCompat.h"
#include "coil/detail/Expected.h"
#include <errno.h>
#include <stdexcept>
using coil::ExecutionInput; using coil::ExecutionResult; using coil::overloaded;

static int gAlive, gCopies, gConv;
// an argument / capture / exception type whose live instances are counted
struct Tok {
  int id; Tok(int id = 0) : id(id) { gAlive++; } Tok(Tok const& o) : id(o.id) { gAlive++; gCopies++; } Tok(Tok&& o) : id(o.id) { o.id = -1; gAlive++; } ~Tok() { id = -7; gAlive--; }
  bool operator==(Tok const& o) const { return id == o.id; } bool operator!=(Tok const& o) const { return id != o.id; } Tok& operator=(Tok const& o) { id = o.id; gCopies++; return *this; } Tok& operator=(Tok&& o) { id = o.id; return *this; }
};
struct MyError : std::exception { char text[4]; MyError(const char* t) { memcpy(text, t, 4); } const char* what() const noexcept override { return text; } };
struct Tag { int v; Tok t; };
static int gThrowAt; static char gWhat[4];
[[noreturn]] static void thrower(uint32_t kind) {
  switch (kind) {
    case 0: throw std::runtime_error("std text");
    case 1: throw MyError(gWhat);
    case 2: throw 42;
    case 3: throw "literal";
    case 4: throw Tag{5, Tok(9)};
    case 5: throw String{"a string"};
    default: throw std::runtime_error("");
  }
}
template<> struct coil::TypeSerializer<Tok> {
  static coil::Expected<Tok, coil::String> fromString(coil::Value const& v) {
    gConv++; if (gThrowAt >= 0 && v.subvalues.size() == 1 && svIs(v.subvalues[0], "throw")) thrower(gThrowAt);
    if (v.subvalues.size() == 1 && svIs(v.subvalues[0], "bad")) return coil::errors::createGenericError<Tok>(v);
    return Tok{(int)v.subvalues.size()};
  }
  static coil::String toString(Tok const& t) { if (t.id == 77) thrower(gThrowAt); return "tok"; }
};
COIL_CREATE_TYPE_NAME(Tok, "Tok");

static void expectError(Txt& m, uint32_t kind) { m.add("Exception caught during execution"); if (kind == 0) m.add(": std text"); else if (kind == 1) { m.add(": "); m.add(gWhat); } else if (kind > 5) m.add(": "); }

// C11 with catching
extern "C" void check_throw() {
  uint32_t kind = sym_choice(7, "kind"), site = sym_choice(6, "site"); gThrowAt = (int)kind; sym_bytes(gWhat, 3, "what"); gWhat[3] = 0; for (int i = 0; i < 3; i++) sym_assume(gWhat[i] != 0);
  gAlive = gCopies = gConv = 0; bool log = sym_choice(2, "log"), err = sym_choice(2, "err");
  { Bindings b; Tok cap(3); int ran = 0;
    auto before = [&](Context& c) { if (log) c.logline("before"); if (err) c.reportError("earlier"); };
    b["body"] = overloaded([&, cap](Context c, Tok, Tok const&) { before(c); ran++; if (cap.id == 3) thrower(kind); return 1; });
    b["conv"] = [&](Context c, Tok, Tok, Tok) { ran++; return 1; };
    b["ret"] = [&](Context c, int) { before(c); ran++; return Tok{77}; };
    b["void"] = [&](Context c) { before(c); std::string local("some local text that owns memory"); std::vector<Tok> v(3); thrower(kind); };
    b["inner"] = [&](Context c) { before(c); auto r = b.execute("void"); ran += r.errors.size() == (err ? 2u : 1u) ? 1 : 100; thrower(kind); };
    b["member"] = coil::property([&] { return 1; }, [&](int) { thrower(kind); });
    int base = gAlive;
    static const char* L[6] = {"body a b", "conv a throw bad", "ret 1", "void", "inner", "member 3"};
    auto r = b.execute(L[site]); Txt m; expectError(m, kind);
    bool rep = err && site != 1 && site != 5; bool logged = log && site != 1 && site != 5;
    CHECKM(r.errors.size() == (rep ? 2u : 1u), "a throw is one additional error");
    if (rep && r.errors.size() > 0) CHECKM(strIs(r.errors[0], "earlier"), "errors reported before the throw are kept");
    if (r.errors.size()) CHECKM(strIs(r.errors[r.errors.size() - 1], m), "the error carries the exception's text");
    CHECKM(!r.returnValue.hasValue(), "no return value after a throw"); CHECKM(strIs(r.output, logged ? "before\n" : ""), "output before the throw is kept");
    CHECKM(gAlive == base, "arguments and temporaries are released exactly once");
    if (site == 1) CHECK(ran == 0); if (site == 4) CHECK(ran == 1);
    // the registry remains usable
    gThrowAt = -1; b["ok"] = [&] { return 5; }; auto r2 = b.execute("ok"); CHECKM(r2.errors.empty() && r2.returnValue.hasValue() && strIs(*r2.returnValue, "5"), "the registry remains usable");
    auto r3 = b.execute("conv a b c"); CHECK(r3.errors.empty() && ran == (site == 0 || site == 2 || site == 4 ? 2 : 1) && r3.returnValue.hasValue()); gThrowAt = (int)kind;
    auto r4 = b.execute(L[site]); CHECKM(r4.errors.size() == (rep ? 2u : 1u), "throwing again is reported again"); CHECK(gAlive == base);
    b["body"] = nullptr; CHECK(b.get("body") == nullptr && b.get("ret") != nullptr);
    sym_reach("caught"); observeResult(r); }
  CHECKM(gAlive == 0, "everything is destroyed");
}
// C11 with catching off: the exception reaches the caller unchanged
extern "C" void check_throw_escapes() {
  uint32_t kind = sym_choice(7, "kind"), site = sym_choice(4, "site"); gThrowAt = (int)kind; sym_bytes(gWhat, 3, "what"); gWhat[3] = 0; gAlive = 0;
  { Bindings b; b["body"] = [&](Context c, Tok, Tok const&) { c.log("x"); thrower(kind); return 1; }; b["conv"] = [&](Tok, Tok, Tok) { return 1; }; b["ret"] = [&](int) { return Tok{77}; }; b["void"] = [&] { thrower(kind); };
    static const char* L[4] = {"body a b", "conv a throw bad", "ret 1", "void"}; int base = gAlive; int got = -1;
    try { auto r = b.execute(L[site]); got = 100; } catch (MyError& e) { got = 1; CHECKM(bytesEq(e.what(), gWhat, 4), "the exception is unchanged"); } catch (std::runtime_error const& e) { got = strcmp(e.what(), "") == 0 ? 6 : strcmp(e.what(), "std text") == 0 ? 0 : 99; } catch (int v) { got = v == 42 ? 2 : 99; } catch (const char* s) { got = strcmp(s, "literal") == 0 ? 3 : 99; } catch (Tag& t) { got = t.v == 5 && t.t.id == 9 ? 4 : 99; } catch (String& s) { got = strIs(s, "a string") ? 5 : 99; }
    CHECKM(got == (int)kind, "the exception reaches the caller unchanged"); CHECKM(gAlive == base, "arguments and temporaries are released exactly once"); sym_reach("escaped"); sym_observe(got, "got");
    gThrowAt = -1; auto r = b.execute("conv a b c"); CHECKM(r.errors.empty() && r.returnValue.hasValue(), "the registry remains usable"); }
  CHECK(gAlive == 0);
}

// ---------------------------------------------------------------- C12
static bool sameView(StringView a, StringView b) { return svEq(a, b); }
static bool sameResult(ExecutionResult const& a, ExecutionResult const& b) {
  if (a.errors.size() != b.errors.size() || a.returnValue.hasValue() != b.returnValue.hasValue() || !svEq(a.output, b.output) || !sameView(a.input.name, b.input.name) || a.input.arguments.size() != b.input.arguments.size() || a.input.namedArguments.size() != b.input.namedArguments.size()) return false;
  for (size_t i = 0; i < a.errors.size(); i++) if (!svEq(a.errors[i], b.errors[i])) return false;
  if (a.returnValue.hasValue() && !svEq(*a.returnValue, *b.returnValue)) return false;
  for (size_t i = 0; i < a.input.arguments.size(); i++) { auto &x = a.input.arguments[i].subvalues, &y = b.input.arguments[i].subvalues; if (x.size() != y.size()) return false; for (size_t j = 0; j < x.size(); j++) if (!sameView(x[j], y[j])) return false; }
  return true;
}
static void stateless(Bindings& b) {
  b["i"] = [](Context c, int x) { c.log("n"); return x; }; b["e"] = [](Context c) { c.reportError("err"); c.log("out"); return 1; }; b["b"] = overloaded([](bool x) { return x; }, [] { return 2.5; }); b["u"] = [](unsigned char a, Value v) { return v; };
}
static void shortLine(Line& l) { if (l.n) { char c = l.p[0]; sym_assume((c == 'i') | (c == 'e') | (c == 'b') | (c == 'u') | (c == '"') | (c == '(') | (c == 'z')); } if (l.n > 1) sym_assume(l.p[1] == ' '); }
extern "C" void check_sequence() {
  Line l1(sym_param("N1", 3), "first"), l2(sym_param("N2", 3), "second"); shortLine(l1); shortLine(l2); Bindings b, fresh; stateless(b); stateless(fresh);
  uint32_t pre = sym_choice(3, "errno"); errno = pre == 0 ? 0 : pre == 1 ? ERANGE : EINVAL; auto r1 = b.execute(l1.view()); errno = pre == 2 ? ERANGE : 0; ExecutionResult kept = r1; auto r2 = b.execute(l2.view()); CHECKM(sameResult(kept, r1), "a result stays what it was"); errno = 0; auto alone = fresh.execute(l2.view());
  CHECKM(sameResult(r2, alone), "an execution's result does not depend on earlier executions or on errno"); if (r2.errors.empty()) sym_reach("fine"); else sym_reach("errors"); observeResult(r1); observeResult(r2);
}
extern "C" void check_nested() {
  Line in(sym_param("N", 3), "inner"); shortLine(in); uint32_t when = sym_choice(3, "when"); Bindings b, fresh; stateless(b); stateless(fresh); bool rep = sym_choice(2, "report");
  coil::Vector<ExecutionResult> inner; b["outer"] = [&](Context c, int x, Value v) { if (when == 0) inner.pushBack(b.execute(in.view())); c.log("A"); if (rep) c.reportError("outer error"); if (when == 1) inner.pushBack(b.execute(in.view())); c.logline("B"); errno = 0; if (when == 2) inner.pushBack(b.execute(in.view())); CHECK(svIs(v.subvalues[0], "arg")); CHECKM(c.hasErrors() == rep, "an enclosing execution does not see inner errors"); CHECK(c.namedArgs().size() == 1); return x + 1; };
  auto r = b.execute("outer 41 arg k=v"); auto alone = fresh.execute(in.view());
  CHECKM(inner.size() == 1 && sameResult(inner[0], alone), "a nested execution gives the result it would give alone");
  CHECKM(strIs(r.output, "AB\n"), "the enclosing execution keeps its own output"); CHECKM(r.errors.size() == (rep ? 1u : 0u) && (rep ? strIs(r.errors[0], "outer error") && !r.returnValue.hasValue() : r.returnValue.hasValue() && strIs(*r.returnValue, "42")), "the enclosing execution keeps its own errors and return value"); CHECK(svIs(r.input.name, "outer") && r.input.arguments.size() == 2 && r.input.namedArguments.size() == 1);
  if (alone.errors.empty()) sym_reach("inner fine"); else sym_reach("inner errors"); observeResult(r); if (inner.size()) observeResult(inner[0]);
}
// everything a running command holds - arguments, named arguments, lookups - while another execution of the same command, with other values, goes on
struct Held { char s[2], v[2], l[2][2], k[2], m[2]; int o; bool ok; };
static void held(Held& h, const char* what) { sym_bytes(h.s, 2, what); sym_bytes(h.v, 2, what); sym_bytes(h.l, 4, what); sym_bytes(h.k, 2, what); sym_bytes(h.m, 2, what); h.o = (int)sym_u8(what) % 10; h.ok = true; }
static ExecutionInput heldInput(Held& h, char* digit) {
  ExecutionInput in; in.name = "w"; *digit = (char)('0' + h.o); StringView d{digit, 1}; in.arguments.pushBack(Value{d}); in.arguments.pushBack(Value{StringView{h.s, 2}}); in.arguments.pushBack(Value{StringView{h.v, 2}});
  coil::Vector<StringView> l; l.pushBack(StringView{h.l[0], 2}); l.pushBack(StringView{h.l[1], 2}); in.arguments.pushBack(Value{coil::move(l)}); in.arguments.pushBack(Value{d});
  in.namedArguments.pushBack(coil::NamedValue{"k", Value{StringView{h.k, 2}}}); in.namedArguments.pushBack(coil::NamedValue{"d", Value{d}}); in.namedArguments.pushBack(coil::NamedValue{"m", Value{StringView{h.m, 2}}}); return in;
}
extern "C" void check_nested_held() {
  typedef coil::NamedArgs::ArgType AT; static Held h[2]; held(h[0], "outer"); held(h[1], "inner"); char dg[2]; ExecutionInput input[2] = {heldInput(h[0], dg), heldInput(h[1], dg + 1)}; uint32_t what = sym_choice(7, "inner"); int depth = 0, ran = 0; bool wrong = false;
  { Bindings b; int var = 3; String prop{"p"}; b["v"] = coil::variable(&var); b["p"] = coil::property([&]() -> String const& { return prop; }, [&](String s) { prop = coil::move(s); });
    b["w"] = [&](Context c, int o, String s, StringView v, std::vector<String> const& l, std::optional<int> opt) {
      Held& me = h[depth]; ran++; auto eq = [](auto const& x, const char* p) { return svEq(StringView{x}, StringView{p, 2}); };
      auto na = c.namedArgs(); auto it = na.find("k"); auto* any = na.getOrReport("k"); auto* any2 = na.getOrReport("m", AT::Required); auto* none = na.getOrReport("zz"); auto t = na.getOrReport<String>("k"); auto tv = na.getOrReport<StringView>("m"); auto num = na.getOrReport<int>("d"); auto dflt = na.getOrReport<int>("zz", AT::Optional, 77); auto e = na.get("k"); auto bad = na.get("zz"); auto badT = na.get<bool>("k"); c.log(String{me.s, 2});
      if (depth == 0) { depth = 1; ExecutionResult r; switch (what) { case 0: r = b.execute(input[1]); break; case 1: r = b.execute("v 8"); break; case 2: r = b.execute("p other"); break; case 3: r = b.execute("nosuch 1 k=2"); break; case 4: r = b.execute("w (k="); break; case 5: r = b.execute("w x y z (a b) q k=1"); break; case 6: for (int i = 0; i < 3; i++) r = b.execute(input[1]); break; }
        Held& in = h[1]; if (what == 0 || what == 6) { Txt w; w.add(in.s, 2); if (!(r.errors.empty() && strIs(r.output, w) && r.returnValue.hasValue() && eq(*r.returnValue, in.v))) wrong = true; } else if (what == 1 ? var != 8 || !r.errors.empty() : what == 2 ? !strIs(prop, "other") || !r.errors.empty() : what < 5 ? r.errors.size() != 1 : r.errors.size() != 2) wrong = true;
        depth = 0; }
      CHECKM(o == me.o && eq(s, me.s) && eq(v, me.v) && l.size() == 2 && eq(l[0], me.l[0]) && eq(l[1], me.l[1]) && opt.has_value() && *opt == me.o, "arguments stay what they were during another execution");
      CHECKM(na.size() == 3 && it != na.end() && svIs(it->key, "k") && it->value.subvalues.size() == 1 && eq(it->value.subvalues[0], me.k), "an iterator still designates the named argument"); CHECKM(any && any->subvalues.size() == 1 && eq(any->subvalues[0], me.k) && any2 && any2->subvalues.size() == 1 && eq(any2->subvalues[0], me.m) && !none, "a value that was looked up stays what it was");
      CHECKM(t.hasValue() && eq(*t, me.k) && tv.hasValue() && eq(*tv, me.m) && num.hasValue() && *num == me.o && dflt.hasValue() && *dflt == 77, "converted named arguments stay what they were"); CHECKM(e.hasValue() && static_cast<Value const&>(*e).subvalues.size() == 1 && eq(static_cast<Value const&>(*e).subvalues[0], me.k), "so does the value of a lookup");
      CHECKM(!bad.hasValue() && strIs(bad.error().message, "Missing named argument 'zz'"), "and the error of one"); CHECKM(!c.hasErrors(), "no errors come from the other execution"); return String{v}; };
    auto r = b.execute(input[0]); Txt w; w.add(h[0].s, 2); CHECKM(ran == (what == 0 ? 2 : what == 6 ? 4 : 1) && r.errors.empty() && strIs(r.output, w) && r.returnValue.hasValue() && svEq(*r.returnValue, StringView{h[0].v, 2}), "the enclosing execution's result is its own"); CHECKM(!wrong, "the inner result is its own");
    ExecutionResult copy = r; depth = 1; auto q = b.execute(input[1]); b.execute("nosuch"); b.execute("v x"); CHECKM(sameResult(copy, r), "a result stays what it was during later executions"); sym_reach("held"); observeResult(r); observeResult(q); }
}
extern "C" void check_recursive() {
  size_t d = sym_param("D", 6); Bindings b; int seen = 0; int x = (int)sym_choice(10, "x");
  b["r"] = [&](Context c, int n, int v) { c.log("<"); int below = 0; if (n > 0) { Txt t("r "); t.num(n - 1).ch(' ').num((unsigned)v); auto r = b.execute(t.view()); CHECKM(r.errors.size() == 0 && r.returnValue.hasValue() && r.output.length() == 2, "each level has its own result"); below = 1; seen++; } c.log(">"); return v + n * 100 + below * 0; };
  Txt t("r "); t.num(d).ch(' ').num((unsigned)x); auto r = b.execute(t.view()); Txt want; want.num(d * 100 + x); CHECKM(r.errors.empty() && r.returnValue.hasValue() && strIs(*r.returnValue, want) && strIs(r.output, "<>"), "the outermost result"); CHECK(seen == (int)d); sym_reach("deep");
}
// commands that register, replace or remove other commands while they run
extern "C" void check_modify_while_running() {
  size_t k = sym_param("K", 3), pre = sym_param("P", 2); gAlive = 0;
  { Bindings b; Tok cap(11); int present[8] = {0}; // id registered under n0..n7, 0 = none
    static const char* N[8] = {"n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7"}; bool wrong = false; int next = 1; Txt inner;
    auto reg = [&](int i) { int id = next++; b[N[i]] = [id, cap](Context c) { c.log("x"); return id; }; present[i] = id; };
    for (size_t i = 0; i < pre; i++) reg((int)i);
    auto check = [&](int i) { ExecutionResult r = b.execute(N[i]); Txt w; w.num(present[i]); if (present[i] ? !(r.errors.empty() && r.returnValue.hasValue() && strIs(*r.returnValue, w) && strIs(r.output, "x")) : !(r.errors.size() == 1 && !r.returnValue.hasValue())) wrong = true; };
    b["m"] = overloaded([](Tok, Tok) {}, [&, cap](Context c, int a, Tok t, String s) {
      c.log("1"); uint32_t batch = sym_choice(2, "batch"); if (batch) for (int i = 2; i < 8; i++) reg(i);
      for (size_t i = 0; i < k; i++) { uint32_t op = sym_choice(3, "op"); uint32_t n = sym_choice(3, "which"); static const int W[3] = {0, 1, 6}; int w = W[n];
        if (op == 0) reg(w); else if (op == 1) { b.remove(N[w]); present[w] = 0; } else check(w); }
      c.log("2"); CHECKM(cap.id == 11 && t.id == 1 && strIs(s, "text") && a == 5, "a running command's captures and arguments stay intact"); return cap.id + a; }, [](int) {});
    auto r = b.execute("m 5 t text");
    CHECKM(r.errors.empty() && r.returnValue.hasValue() && strIs(*r.returnValue, "16") && strIs(r.output, "12"), "the running command's own result is unaffected");
    for (int i = 0; i < 8; i++) check(i); CHECKM(!wrong, "nested executions and later lookups see the registry as modified");
    b.remove("m"); sym_reach("done"); observeResult(r); }
  CHECKM(gAlive == 0, "nothing is left alive");
}

// ---------------------------------------------------------------- C13
struct Model { char name[8][4]; size_t len[8]; int id[8]; int n = 0;
  int find(const char* p, size_t l) const { for (int i = 0; i < n; i++) if (len[i] == l && bytesEq(name[i], p, l)) return i; return -1; }
  void set(const char* p, size_t l, int v) { int i = find(p, l); if (i < 0) { i = n++; memcpy(name[i], p, l); len[i] = l; } id[i] = v; }
  void erase(const char* p, size_t l) { int i = find(p, l); if (i >= 0) { n--; memcpy(name[i], name[n], 4); len[i] = len[n]; id[i] = id[n]; } } };
static void checkName(Bindings& b, Model const& m, const char* p, size_t l) {
  StringView v{p, l}; int i = m.find(p, l); auto* c = static_cast<Bindings const&>(b).get(v);
  CHECKM((c != nullptr) == (i >= 0), "a name resolves exactly when it is registered and not removed");
  if (c && i >= 0) { CHECKM(svEq(c->name, v), "a found entry reports its own name"); CHECKM(c->functors.size() == 1 + (m.id[i] % 2), "the found entry has its overloads"); }
  ExecutionInput in; in.name = v; auto r = b.execute(in);
  if (l) { if (i >= 0) { Txt t; t.num(m.id[i]); CHECKM(r.errors.empty() && r.returnValue.hasValue() && strIs(*r.returnValue, t), "a name runs the command registered last"); } else CHECKM(r.errors.size() == 1 && !r.returnValue.hasValue(), "an unregistered name runs nothing"); }
  observeResult(r);
}
static void registerAs(Bindings& b, char* p, size_t l, int id, uint32_t how) {
  // through a buffer that is overwritten afterwards: the registry must have copied the name
  char* tmp = (char*)malloc(l ? l : 1); memcpy(tmp, p, l); StringView v{tmp, l};
  auto f = [id] { return id; };
  if (id % 2) { if (how) b.add(v, overloaded(f, [](Value) {})); else b[v] = overloaded(f, [](int) {}); }
  else if (how) { auto& c = b.add(v, f); CHECKM(svEq(c.name, StringView{p, l}), "add returns the entry"); } else b[v] = f;
  memset(tmp, '#', l); free(tmp);
}
extern "C" void check_registry() {
  size_t k = sym_param("K", 3), la = sym_param("LA", 1), lb = sym_param("LB", 1); char A[4], B[4]; static char C[4] = {'c', 0, 'x', 0}; if (sym_param("CONCRETE", 0)) { for (size_t i = 0; i < 4; i++) A[i] = "aQ\0z"[i], B[i] = "\xff" "bb"[i % 3]; } else { sym_bytes(A, la, "a"); sym_bytes(B, lb, "b"); }
  Bindings* b = new Bindings; Model m; char* P[3] = {A, B, C}; size_t L[3] = {la, lb, 3};
  for (size_t i = 0; i < sym_param("PRE", 0); i++) { char nm[3] = {'p', (char)('0' + i), 0}; (*b)[nm] = [] { return 1; }; }
  for (size_t s = 0; s < k; s++) {
    uint32_t op = sym_choice(6, "op"), n = op <= 3 ? sym_choice(3, "name") : 0;
    switch (op) {
      case 0: case 1: registerAs(*b, P[n], L[n], (int)(2 * s + op + 1), sym_param("HOW", 0)); m.set(P[n], L[n], (int)(2 * s + op + 1)); break;
      case 2: b->remove(StringView{P[n], L[n]}); m.erase(P[n], L[n]); break;
      case 3: (*b)[StringView{P[n], L[n]}] = nullptr; m.erase(P[n], L[n]); break;
      case 4: b->clear(); m.n = 0; break;
      case 5: if (s % 2) { Bindings* c = new Bindings(coil::move(*b)); delete b; b = c; } else { Bindings c; c["old"] = [] {}; c = coil::move(*b); delete b; b = new Bindings; (*b)["gone"] = [] {}; *b = coil::move(c); CHECKM(b->get("old") == nullptr, "assignment replaces the registry"); CHECK(b->get("gone") == nullptr); } break;
    }
  }
  for (int i = 0; i < 3; i++) checkName(*b, m, P[i], L[i]);
  char Q[2]; if (sym_param("OTHER", 1)) sym_bytes(Q, 1, "other"), checkName(*b, m, Q, 1);
  if (m.n == 0) sym_reach("empty"); if (m.n >= 2) sym_reach("several"); delete b;
}
// many names: growth, collisions, removal in every order
extern "C" void check_registry_large() {
  size_t n = sym_param("N", 24); Bindings b; int id[32]; auto name = [](size_t i, char* o) { o[0] = (char)('a' + i % 5); o[1] = (char)('a' + i / 5); o[2] = 'z'; };
  for (size_t i = 0; i < n; i++) { char t[3]; name(i, t); int v = (int)i + 1; b[StringView{t, 3}] = [v] { return v; }; id[i] = v; }
  for (int s = 0; s < 3; s++) { uint32_t w = sym_choice((uint32_t)n, "remove"); if (s == 1) w = (uint32_t)(n - 1 - w); char t[3]; name(w, t); if (s == 2) { b[StringView{t, 3}] = [w] { return 500 + (int)w; }; id[w] = 500 + (int)w; } else { b.remove(StringView{t, 3}); id[w] = 0; } if (s == 1) s = 1; if (!sym_param("DEEP", 0) && s == 0) s = 1; }
  for (size_t i = 0; i < n; i++) { char t[3]; name(i, t); auto* c = b.get(StringView{t, 3}); CHECKM((c != nullptr) == (id[i] != 0), "other names are unaffected"); if (c) CHECK(svEq(c->name, StringView{t, 3})); ExecutionInput in; in.name = StringView{t, 3}; auto r = b.execute(in); if (id[i]) { Txt x; x.num(id[i]); CHECKM(r.errors.empty() && r.returnValue.hasValue() && strIs(*r.returnValue, x), "each name keeps its own command"); } }
  sym_reach("large");
}
// N commands, then removals (and one registration again) in every order; all names are looked up after every step
extern "C" void check_unbind_orders() {
  size_t n = sym_param("N", 4), d = sym_param("D", n); Bindings b; bool has[12]; char t[3] = {0, 'z', 0}; auto nm = [&](size_t i) { t[0] = (char)(sym_param("SPREAD", 16) * i + 1); return StringView{t, 1}; }; // (names that differ by multiples of 16 share a bucket up to 16 buckets)
  for (size_t i = 0; i < n; i++) { int v = (int)i + 1; b[nm(i)] = [v] { return v; }; has[i] = true; }
  for (size_t s = 0; s < d; s++) { size_t w = sym_choice((uint32_t)n, "name"); if (has[w]) { b.remove(nm(w)); has[w] = false; } else { int v = (int)w + 1; b[nm(w)] = [v] { return v; }; has[w] = true; }
    for (size_t i = 0; i < n; i++) { auto* c = b.get(nm(i)); CHECKM((c != nullptr) == has[i], "found exactly when registered"); if (c && s + 1 == d) { auto r = b.execute(nm(i)); Txt x; x.num((int)i + 1); CHECKM(r.errors.empty() && r.returnValue.hasValue() && strIs(*r.returnValue, x), "with its own command"); } } }
  sym_reach("done");
}

// ---------------------------------------------------------------- C30
struct MoveOnly { Tok t; MoveOnly(int i) : t(i) {} MoveOnly(MoveOnly&&) = default; MoveOnly(MoveOnly const&) = delete; int operator()() const { CHECKM(t.id >= 0, "a registered callable is alive"); return t.id; } };
struct MoveOnly1 { Tok t; MoveOnly1(int i) : t(i) {} MoveOnly1(MoveOnly1&&) = default; int operator()(Context c, Tok const& x) const { CHECKM(t.id >= 0 && x.id >= 0, "a registered callable is alive"); return t.id; } };
extern "C" void check_lifetime() {
  size_t k = sym_param("K", 3); gAlive = gCopies = 0; gThrowAt = 2; int live[3] = {0, 0, 0}; static const char* N[3] = {"a", "b", "c"};
  { Bindings* b = new Bindings; auto total = [&] { return live[0] + live[1] + live[2]; };
    for (size_t s = 0; s < k; s++) {
      uint32_t op = sym_choice(9, "op"), n = op < 5 ? sym_choice(3, "name") : 0;
      switch (op) {
        case 0: (*b)[N[n]] = MoveOnly((int)s); live[n] = 1; break;
        case 1: b->add(N[n], overloaded(MoveOnly((int)s), MoveOnly1((int)s), MoveOnly1(9))); live[n] = 3; break;
        case 2: b->remove(N[n]); live[n] = 0; break;
        case 3: { auto r = b->execute(N[n]); CHECK(r.errors.empty() == (live[n] > 0)); break; }
        case 4: { Txt t(N[n]); t.add(sym_choice(2, "bad") ? " bad" : " throw"); auto r = b->execute(t.view()); CHECK(r.errors.size() == 1); break; }
        case 5: b->clear(); live[0] = live[1] = live[2] = 0; break;
        case 6: { Bindings* c = new Bindings(coil::move(*b)); delete b; b = c; break; }
        case 7: *b = Bindings{}; live[0] = live[1] = live[2] = 0; break;
        case 8: { Bindings c; c["a"] = MoveOnly(4); *b = coil::move(c); live[0] = 1; live[1] = live[2] = 0; break; }
      }
      CHECKM(gAlive == total(), "exactly the registered callables are alive");
    }
    delete b; }
  CHECKM(gAlive == 0, "destroying the registry destroys every callable"); CHECKM(gCopies == 0, "callables are moved, never duplicated"); sym_reach("done");
}
struct MoveOnlyTok { Tok t; MoveOnlyTok(int i) : t(i) {} MoveOnlyTok(MoveOnlyTok&&) = default; int operator()(int) const { return t.id; } };
// lexers: the registry owns exactly the one set last, uses that one, and destroys each exactly once
static int gLexAlive, gLexDead[16];
struct CountedLexer : coil::Lexer { int id; coil::DefaultLexer inner; CountedLexer(int i) : id(i) { gLexAlive++; } ~CountedLexer() override { CHECKM(id >= 0 && gLexDead[id] == 0, "a lexer is destroyed once"); gLexDead[id]++; id = -1; gLexAlive--; }
  coil::Expected<ExecutionInput, String> parse(StringView s) const override { CHECKM(id >= 0, "the lexer in use is alive"); if (svIs(s, "refuse")) { Txt t("lexer "); t.num(id); return coil::makeUnexpected(String{t.view()}); } return inner.parse(s); } };
extern "C" void check_lifetime_lexer() {
  size_t K = sym_param("K", 4); gLexAlive = gAlive = 0; for (int& d : gLexDead) d = 0; int cur[2] = {-1, -1}, made = 0; bool has[2] = {false, false};
  { Bindings* b[2] = {new Bindings, new Bindings}; 
    for (size_t k = 0; k < K; k++) { uint32_t w = sym_choice(2, "registry"); Bindings*& x = b[w]; switch (sym_choice(8, "op")) {
        case 0: x->setLexer(coil::makeUnique<CountedLexer>(made)); cur[w] = made++; break;
        case 1: { coil::UniquePtr<coil::Lexer> p = coil::makeUnique<CountedLexer>(made); x->setLexer(coil::move(p)); cur[w] = made++; break; }
        case 2: (*x)["c"] = MoveOnlyTok(3); has[w] = true; break;
        case 3: x->clear(); has[w] = false; break;
        case 4: { Bindings* y = new Bindings(coil::move(*x)); delete x; x = y; break; }
        case 5: { *x = coil::move(*b[1 - w]); delete b[1 - w]; b[1 - w] = new Bindings; cur[w] = cur[1 - w]; has[w] = has[1 - w]; cur[1 - w] = -1; has[1 - w] = false; break; }
        case 6: delete x; x = new Bindings; cur[w] = -1; has[w] = false; break;
        default: x->setLexer(coil::makeUnique<coil::DefaultLexer>()); cur[w] = -1; break; }
      CHECKM(gLexAlive == (cur[0] >= 0) + (cur[1] >= 0), "exactly the lexers in use are alive"); CHECKM(gAlive == (int)has[0] + (int)has[1], "and the callables");
      for (int i = 0; i < 2; i++) { auto r = b[i]->execute("c 1"); CHECKM(has[i] ? r.errors.empty() : r.errors.size() == 1, "commands are found as before"); auto q = b[i]->execute("refuse"); Txt t; if (cur[i] >= 0) { t.add("lexer ").num(cur[i]); Txt u("Syntax error: "); u.add(t.view()); CHECKM(q.errors.size() == 1 && strIs(q.errors[0], u), "the lexer set last reads the text"); } else CHECK(q.errors.size() == 1 && strIs(q.errors[0], "No function 'refuse' is registered")); } }
    if (made >= 2) sym_reach("replaced"); delete b[0]; delete b[1]; }
  CHECKM(gLexAlive == 0 && gAlive == 0, "nothing is left"); for (int i = 0; i < made; i++) CHECKM(gLexDead[i] == 1, "every lexer is destroyed exactly once"); sym_reach("done");
}
static int freeFn(int x) { return x; }
struct Host { Tok t{1}; int m(Tok const& a) const { return t.id; } int get() const { return t.id; } void set(int v) { t.id = v; } };
extern "C" void check_lifetime_kinds() {
  gAlive = 0; gThrowAt = -1; uint32_t kind = sym_choice(7, "kind"), end = sym_choice(4, "end"); int var = 3;
  { Host h; Host const ch; int base = gAlive; bool own = true; int before = 0; Tok cap(8);
    { Bindings b; auto reg = [&](const char* n) { switch (kind) {
        case 0: b[n] = &freeFn; break; case 1: b[n] = coil::bind(&Host::m, &h); break; case 2: b[n] = coil::variable(&var); break; case 3: b[n] = coil::bindProperty(&Host::get, &Host::set, &h); break;
        case 4: b[n] = coil::property([cap] { return 1; }, [cap](int) {}); break; case 5: b[n] = [cap, s = std::string("a long enough string to be on the heap")](Tok t) { return (int)s.size(); }; break; case 6: b[n] = overloaded([cap] {}, [cap](Tok) {}, coil::bind(&Host::m, &ch)); break; } };
      reg("x"); reg("y"); int two = gAlive; reg("y"); CHECKM(gAlive == two, "replacing releases the replaced callable"); b.execute("x 1"); b.execute("y"); b.execute("y 1 2 3"); CHECKM(gAlive == two, "executing leaves nothing behind");
      switch (end) { case 0: b.remove("x"); b["y"] = nullptr; CHECKM(gAlive == base + 1, "removing releases"); break; case 1: b.clear(); CHECKM(gAlive == base + 1, "clearing releases"); break; case 2: { Bindings c = coil::move(b); CHECK(gAlive == two); c.execute("x 1"); } CHECKM(gAlive == base + 1, "a moved registry owns the callables"); b = Bindings{}; break; case 3: break; } }
    CHECKM(gAlive == base + 1, "destroying the registry releases"); sym_reach("done"); (void)own; (void)before; }
  CHECK(gAlive == 0);
}
