// C14 C24: callables of every kind - what they receive, and what the registry says about them
#include "values.h"
#include <functional>
#include <memory>
using coil::ExecutionInput; using coil::ExecutionResult;
struct By { uchar c; bool operator==(By const& o) const { return c == o.c; } bool operator!=(By const& o) const { return c != o.c; } };
template<> struct coil::TypeSerializer<By> {
  static coil::Expected<By, coil::String> fromString(coil::Value const& v) { if (v.subvalues.size() != 1 || v.subvalues[0].length() != 1) return coil::errors::createGenericError<By>(v); return By{(uchar)v.subvalues[0][0]}; }
  static coil::String toString(By const& k) { coil::String s = "<"; s += (char)k.c; s += '>'; return s; }
};
COIL_CREATE_TYPE_NAME(By, "byte");
static struct Rec { int calls; const volatile void* self; uchar a[4]; void clear() { calls = 0; self = nullptr; a[0] = a[1] = a[2] = a[3] = 0; } } gRec;
static uchar mix(uchar self, uchar a, uchar b, uchar c) { return (uchar)(self + a * 3 + b * 5 + (c ^ 0x5a)); }
static By call(const volatile void* self, uchar id, By a, By b, By c) { gRec.calls++; gRec.self = self; gRec.a[0] = a.c; gRec.a[1] = b.c; gRec.a[2] = c.c; return By{mix(id, a.c, b.c, c.c)}; }

static By fFree(By a, By b, By c) { return call(nullptr, 0, a, b, c); }
static By fNoexcept(By a, By b, By c) noexcept { return call(nullptr, 0, a, b, c); }
static By fRefs(By const& a, By&& b, By c) { return call(nullptr, 0, a, b, c); }
static By fCtx(Context x, By a, By b, By c) { x.log("L"); return call(nullptr, 0, a, b, c); }
static By fCtxRef(Context const& x, By a, By const& b, By&& c) { const_cast<Context&>(x).log("L"); return call(nullptr, 0, a, b, c); }
static By fConstParams(const By a, const By b, const By c) { return call(nullptr, 0, a, b, c); }
struct Base0 { uint64_t pad = 1; virtual ~Base0() {} virtual By virt(By a, By b, By c) { gRec.calls += 100; return a; } };
struct Base1 { uint64_t pad1 = 2; uchar id1 = 0; By base(By a, By b, By c) { return call(this, id1, a, b, c); } };
struct Cls : Base0, Base1 {
  uchar id; Cls(uchar i) : id(i) { id1 = (uchar)(i ^ 0x77); }
  By plain(By a, By b, By c) { return call(this, id, a, b, c); }
  By con(By a, By b, By c) const { return call(this, id, a, b, c); }
  By vol(By a, By b, By c) volatile { return call(this, id, a, b, c); }
  By convol(By a, By b, By c) const volatile { return call(this, id, a, b, c); }
  By lref(By a, By b, By c) & { return call(this, id, a, b, c); }
  By clref(By a, By b, By c) const& { return call(this, id, a, b, c); }
  By nx(By a, By b, By c) noexcept { return call(this, id, a, b, c); }
  By cnx(By a, By b, By c) const noexcept { return call(this, id, a, b, c); }
  By lnx(By a, By b, By c) & noexcept { return call(this, id, a, b, c); }
  By clnx(By a, By b, By c) const& noexcept { return call(this, id, a, b, c); }
  By vlref(By a, By b, By c) volatile& { return call(this, id, a, b, c); }
  By cvnx(By a, By b, By c) const volatile noexcept { return call(this, id, a, b, c); }
  By ctx(Context x, By a, By b, By c) { x.log("L"); return call(this, id, a, b, c); }
  By cctx(Context x, By const& a, By b, By&& c) const { x.log("L"); return call(this, id, a, b, c); }
  By virt(By a, By b, By c) override { return call(this, id, a, b, c); }
  By refs(By const& a, By&& b, By c) { return call(this, id, a, b, c); }
  static By stat(By a, By b, By c) { return call(nullptr, 0, a, b, c); }
};
struct FunC { uchar cap; By operator()(By a, By b, By c) const { return call(nullptr, cap, a, b, c); } };
struct FunM { uchar cap; By operator()(By a, By b, By c) { return call(nullptr, cap, a, b, c); } };
struct FunN { uchar cap; By operator()(By a, By b, By c) const noexcept { return call(nullptr, cap, a, b, c); } };
struct FunX { uchar cap; uint64_t big[9]; By operator()(Context x, By a, By b, By c) const { x.log("L"); return call(nullptr, cap, a, b, c); } };
struct FunL { uchar cap; By operator()(By a, By b, By c) & { return call(nullptr, cap, a, b, c); } };
struct Own { std::unique_ptr<uchar> p; By operator()(By a, By b, By c) const { return call(nullptr, *p, a, b, c); } };
struct Info { const volatile void* self = nullptr; uchar id = 0; bool ctx = false; bool returnsLogged = false; };
static const uint32_t KINDS = 38;
static Info bindKind(Bindings& b, StringView n, uint32_t k, Cls* o, uchar& cap) {
  Info i; Cls const* c = o; auto obj = [&] { i.self = o; i.id = o->id; };
  switch (k) {
    case 0: b[n] = &fFree; break;
    case 1: b[n] = &fNoexcept; break;
    case 2: b[n] = &fRefs; break;
    case 3: b[n] = &fCtx; i.ctx = true; break;
    case 4: b[n] = &fCtxRef; i.ctx = true; break;
    case 5: b[n] = &fConstParams; break;
    case 6: b[n] = &Cls::stat; break;
    case 7: b[n] = coil::bind(&Cls::plain, o); obj(); break;
    case 8: b[n] = coil::bind(&Cls::con, o); obj(); break;
    case 9: b[n] = coil::bind(&Cls::con, c); obj(); break;
    case 10: b[n] = coil::bind(&Cls::vol, o); obj(); break;
    case 11: b[n] = coil::bind(&Cls::convol, c); obj(); break;
    case 12: b[n] = coil::bind(&Cls::lref, o); obj(); break;
    case 13: b[n] = coil::bind(&Cls::clref, c); obj(); break;
    case 14: b[n] = coil::bind(&Cls::nx, o); obj(); break;
    case 15: b[n] = coil::bind(&Cls::cnx, c); obj(); break;
    case 16: b[n] = coil::bind(&Cls::lnx, o); obj(); break;
    case 17: b[n] = coil::bind(&Cls::clnx, c); obj(); break;
    case 18: b[n] = coil::bind(&Cls::vlref, o); obj(); break;
    case 19: b[n] = coil::bind(&Cls::cvnx, c); obj(); break;
    case 20: b[n] = coil::bind(&Cls::ctx, o); obj(); i.ctx = true; break;
    case 21: b[n] = coil::bind(&Cls::cctx, c); obj(); i.ctx = true; break;
    case 22: b[n] = coil::bind(&Cls::virt, o); obj(); break;
    case 23: b[n] = coil::bind(&Base0::virt, static_cast<Base0*>(o)); obj(); break;
    case 24: b[n] = coil::bind(&Base1::base, o); i.self = static_cast<Base1*>(o); i.id = o->id1; break;
    case 25: b[n] = coil::bind(&Cls::refs, o); obj(); break;
    case 26: b[n] = FunC{cap}; i.id = cap; break;
    case 27: b[n] = FunM{cap}; i.id = cap; break;
    case 28: b[n] = FunN{cap}; i.id = cap; break;
    case 29: b[n] = FunX{cap, {1, 2, 3}}; i.id = cap; i.ctx = true; break;
    case 30: b[n] = FunL{cap}; i.id = cap; break;
    case 31: b[n] = Own{std::unique_ptr<uchar>(new uchar(cap))}; i.id = cap; break;
    case 32: b[n] = [cap](By a, By b, By c) { return call(nullptr, cap, a, b, c); }; i.id = cap; break;
    case 33: b[n] = [&cap](By a, By b, By c) mutable { return call(nullptr, cap, a, b, c); }; i.id = cap; break;
    case 34: b[n] = [o](Context x, By const& a, By b, By c) { x.log("L"); return o->plain(a, b, c); }; obj(); i.ctx = true; break;
    case 35: b[n] = [](By a, By b, By c) { return call(nullptr, 0, a, b, c); }; break;
    case 36: b[n] = std::function<By(By, By, By)>(FunC{cap}); i.id = cap; break;
    default: b.add(n, coil::bind(&Cls::plain, o)); obj(); break;
  }
  return i;
}
static void expectCall(ExecutionResult const& r, Info const& i, uchar const* a) {
  CHECKM(gRec.calls == 1, "called exactly once"); CHECKM(gRec.self == i.self, "on its own object"); CHECKM((gRec.a[0] == a[0]) & (gRec.a[1] == a[1]) & (gRec.a[2] == a[2]), "with the arguments in order");
  CHECKM(r.errors.empty() && r.returnValue.hasValue(), "a value and no error"); char t[4] = {'<', (char)mix(i.id, a[0], a[1], a[2]), '>', 0}; if (r.returnValue.hasValue()) CHECKM(strEq(*r.returnValue, StringView{t, 3}), "its result is rendered"); CHECKM(strIs(r.output, i.ctx ? "L" : ""), "the context is this execution's"); observeResult(r);
}
extern "C" void check_bind() {
  uint32_t k = sym_choice(KINDS, "kind"); Cls o1{sym_u8("id1")}, o2{sym_u8("id2")}; uchar c1 = sym_u8("cap1"), c2 = sym_u8("cap2"); Bindings b; Info f = bindKind(b, "f", k, &o1, c1), g = bindKind(b, "g", k, &o2, c2);
  size_t M = sym_param("M", 3); uint32_t move = sym_choice(2, "move"); Bindings moved; Bindings* p = &b; if (move) { moved = coil::move(b); p = &moved; }
  for (size_t m = 0; m < M; m++) {
    uchar a[3]; sym_bytes(a, 3, "args"); ExecutionInput in; uint32_t w = sym_choice(2, "which"); in.name = w ? "g" : "f"; for (int i = 0; i < 3; i++) in.arguments.pushBack(Value{StringView{(char*)&a[i], 1}});
    gRec.clear(); auto r = p->execute(in); expectCall(r, w ? g : f, a);
  }
  CHECK(o1.pad == 1 && o1.pad1 == 2 && o2.pad == 1); sym_reach("called");
}
// the kinds as members of one overload set, next to each other
extern "C" void check_bind_overloads() {
  Cls o{sym_u8("id")}; uchar cap = sym_u8("cap"); int state = 0; By last{0}, two[2] = {}; Bindings b; 
  b["f"] = coil::overloaded(coil::bind(&Cls::plain, &o), [&](By x) { state += 1; last = x; return x; }, [&, n = 0](By const& x, By&& y) mutable { n++; state += 10 * n; two[0] = x; two[1] = y; return y; }, [&](Context c) { state += 1000; c.log("none"); return (By*)nullptr; });
  uint32_t n = sym_choice(4, "args"); uchar a[3]; sym_bytes(a, 3, "args"); ExecutionInput in; in.name = "f"; for (uint32_t i = 0; i < n; i++) in.arguments.pushBack(Value{StringView{(char*)&a[i], 1}}); gRec.clear(); auto r = b.execute(in);
  char t[4] = {'<', 0, '>', 0};
  if (n == 3) { Info i; i.self = &o; i.id = o.id; expectCall(r, i, a); CHECK(state == 0); return; }
  CHECK(gRec.calls == 0 && r.errors.empty() && r.returnValue.hasValue()); if (!r.returnValue.hasValue()) return;
  if (n == 0) { CHECK(state == 1000); CHECKM(strIs(*r.returnValue, "null"), "a null pointer is rendered as null"); CHECK(strIs(r.output, "none")); }
  if (n == 1) { t[1] = (char)a[0]; CHECK(state == 1 && last.c == a[0]); CHECK(strEq(*r.returnValue, StringView{t, 3})); }
  if (n == 2) { t[1] = (char)a[1]; CHECK(state == 10 && two[0].c == a[0] && two[1].c == a[1]); CHECK(strEq(*r.returnValue, StringView{t, 3})); auto r2 = b.execute(in); CHECKM(state == 30, "a mutable callable keeps its own state between calls"); }
  sym_reach("called");
}
// every arity, arguments in order
extern "C" void check_bind_arity() {
  uchar a[9]; sym_bytes(a, 9, "args"); uchar got[9] = {}; int calls = 0; uint32_t n = sym_choice(10, "arity"); Bindings b; ExecutionInput in; in.name = "f"; for (uint32_t i = 0; i < n; i++) in.arguments.pushBack(Value{StringView{(char*)&a[i], 1}});
  auto put = [&](auto... x) { uchar v[] = {0, x.c...}; calls++; for (size_t i = 0; i < sizeof...(x); i++) got[i] = v[i + 1]; };
  switch (n) {
    case 0: b["f"] = [&] { put(); }; break; case 1: b["f"] = [&](By p) { put(p); }; break; case 2: b["f"] = [&](By p, By q) { put(p, q); }; break; case 3: b["f"] = [&](Context, By p, By q, By r) { put(p, q, r); }; break;
    case 4: b["f"] = [&](By p, By q, By r, By s) { put(p, q, r, s); }; break; case 5: b["f"] = [&](By p, By q, By r, By s, By t) { put(p, q, r, s, t); }; break; case 6: b["f"] = [&](Context, By p, By q, By r, By s, By t, By u) { put(p, q, r, s, t, u); }; break;
    case 7: b["f"] = [&](By p, By q, By r, By s, By t, By u, By v) { put(p, q, r, s, t, u, v); }; break; case 8: b["f"] = [&](By p, By q, By r, By s, By t, By u, By v, By w) { put(p, q, r, s, t, u, v, w); }; break; default: b["f"] = [&](Context, By p, By q, By r, By s, By t, By u, By v, By w, By x) { put(p, q, r, s, t, u, v, w, x); }; break;
  }
  auto r = b.execute(in); CHECK(calls == 1 && r.errors.empty()); CHECKM(!r.returnValue.hasValue(), "a void callable gives no value"); int same = 1; for (uint32_t i = 0; i < n; i++) same &= got[i] == a[i]; CHECKM(same, "the arguments arrive in order"); observeResult(r); sym_reach("called");
}
// results: pointers of every kind, references, texts
struct Ret {
  By v; By* p() { return &v; } By const* cp() const { return &v; } By& r() { return v; } By const& cr() const { return v; } const By cv() { return v; } By* none() { return nullptr; } By const* cnone() const { return nullptr; } By* const pc() { return &v; }
};
extern "C" void check_bind_result() {
  Ret o{By{sym_u8("value")}}; uchar other = sym_u8("other"); Ret o2{By{other}}; uint32_t k = sym_choice(16, "kind"); bool null = sym_choice(2, "null"); Bindings b; char txt[4]; sym_bytes(txt, 3, "text"); txt[3] = 0; sym_assume((txt[0] != 0) & (txt[1] != 0) & (txt[2] != 0)); By* pp = null ? nullptr : &o.v; String str{StringView{txt, 3}}; std::unique_ptr<By> up(new By(o.v)); bool isNull = false, isText = false, isVoid = false; int ran = 0;
  switch (k) {
    case 0: b["f"] = coil::bind(&Ret::p, &o); break; case 1: b["f"] = coil::bind(&Ret::cp, (Ret const*)&o); break; case 2: b["f"] = coil::bind(&Ret::r, &o); break; case 3: b["f"] = coil::bind(&Ret::cr, &o); break; case 4: b["f"] = coil::bind(&Ret::cv, &o); break;
    case 5: b["f"] = coil::bind(&Ret::none, &o); isNull = true; break; case 6: b["f"] = coil::bind(&Ret::cnone, &o); isNull = true; break; case 7: b["f"] = coil::bind(&Ret::pc, &o); break;
    case 8: b["f"] = [pp] { return pp; }; isNull = null; break; case 9: b["f"] = [pp]() -> By const* { return pp; }; isNull = null; break; case 10: b["f"] = [pp]() -> By* const& { return pp; }; isNull = null; break; case 11: b["f"] = [&]() -> By const& { return o.v; }; break;
    case 12: b["f"] = [&]() -> char const* { return null ? nullptr : txt; }; isText = !null; isNull = null; break; case 13: b["f"] = [&]() -> String const* { return &str; }; isText = true; break; case 14: b["f"] = [&]() -> String const& { return str; }; isText = true; break; default: b["f"] = [&] { ran++; }; isVoid = true; break;
  }
  uchar now = sym_u8("now"); o.v = By{now}; auto r = b.execute("f"); CHECK(r.errors.empty()); CHECK(r.returnValue.hasValue() == !isVoid); char t[4] = {'<', (char)now, '>', 0};
  if (isVoid) CHECK(ran == 1); else if (r.returnValue.hasValue()) { if (isNull) CHECKM(strIs(*r.returnValue, "null"), "a null pointer is rendered as null"); else if (isText) CHECKM(strEq(*r.returnValue, StringView{txt, 3}), "a text is rendered as itself"); else CHECKM(strEq(*r.returnValue, StringView{t, 3}), "the result is rendered from the object returned"); }
  CHECK(o2.v.c == other); observeResult(r); sym_reach(isNull ? "null" : isText ? "text" : isVoid ? "void" : "target");
}
// callables with a state of their own: every call finds what the calls before left, in the very object that was registered
template<size_t PAD> struct Count { int n; char pad[PAD]; int operator()() { return ++n; } };
struct CountOver { int n; int operator()(int by) & { return n += by; } };
struct CountStr { String s; String const& operator()(Context, StringView v) { s += v; return s; } };
struct CountStatic { static int n; int operator()(Context c) const noexcept { c.log("."); return ++n; } }; int CountStatic::n;
struct CountCls { int n; int up() { return ++n; } int by(int k) volatile { n = n + k; return n; } int upC() const { return ++const_cast<CountCls*>(this)->n; } };
extern "C" void check_bind_state() {
  size_t K = sym_param("K", 3); int init = (int)sym_choice(50, "initial") * 7; CountCls obj{init}, other{1000}; CountStatic::n = init; int shared = init; static const uint32_t SK = 17; uint32_t k = sym_choice(SK, "kind"), move = sym_choice(3, "moved"); auto* sp = new int(init); std::unique_ptr<int> own(new int(init));
  int by = 1; bool text = false, arg = false; Bindings* b = new Bindings; auto reg = [&](const char* name) { Bindings& r = *b; switch (k) {
    case 0: r[name] = [n = init]() mutable { return ++n; }; break; case 1: r[name] = [n = (char)(init & 127), m = init](Context) mutable { n++; return ++m; }; break; case 2: r[name] = Count<1>{init, {}}; break; case 3: r[name] = Count<40>{init, {}}; break; case 4: r[name] = CountOver{init}; arg = true; by = 5; break; case 5: r[name] = [v = std::vector<int>(3, init)]() mutable { v.push_back(v.back() + 1); return v.back(); }; break;
    case 6: r[name] = coil::bind(&CountCls::up, &obj); break; case 7: r[name] = coil::bind(&CountCls::by, &obj); arg = true; by = 5; break; case 8: r[name] = coil::bind(&CountCls::upC, (CountCls const*)&obj); break; case 9: r[name] = CountStatic{}; break; case 10: r[name] = [&shared] { return ++shared; }; break; case 11: r[name] = [sp]() -> int& { return ++*sp; }; break;
    case 12: r[name] = [&shared, calls = 0]() mutable -> int* { calls++; shared += calls / calls; return &shared; }; break; case 13: r[name] = CountStr{String{}}; arg = text = true; break; case 14: r[name] = std::function<int()>([n = init]() mutable { return ++n; }); break; case 15: r[name] = [p = std::unique_ptr<int>(new int(init))]() { return ++*p; }; break; default: r[name] = coil::overloaded([n = init]() mutable { return ++n; }, [n = 900](int, int) mutable { return ++n; }); break; } };
  bool apart = k <= 5 || k >= 13; reg("f"); reg("g"); int f = init, g = init; Txt tf, tg;
  for (size_t i = 0; i < K; i++) { bool onF = sym_choice(2, "which"); int& n = onF ? f : g; if (!apart) { f += by; g = f; } else n += by; Txt& t = onF ? tf : tg; Txt line(onF ? "f" : "g"); if (text) { line.add(" x"); t.ch('x'); } else if (arg) line.add(" 5"); auto r = b->execute(line.view()); Txt m; if (text) m.add(t.view()); else m.num((unsigned)n); CHECKM(r.errors.empty() && r.returnValue.hasValue() && strIs(*r.returnValue, m), "the callable's own state goes on from the last call");
    if (i == 0 && move == 1) { Bindings* c = new Bindings(coil::move(*b)); delete b; b = c; } if (i == 0 && move == 2) { Bindings* c = new Bindings; *c = coil::move(*b); delete b; b = c; (*b)["h"] = [] { return 0; }; for (int j = 0; j < 5; j++) { char z[2] = {(char)('p' + j), 0}; (*b)[z] = [] {}; } b->execute("h"); } observeResult(r); }
  if (k == 6 || k == 7 || k == 8) CHECKM(obj.n == f && other.n == 1000, "on its own object"); delete b; delete sp; sym_reach(apart ? "own state" : "shared state");
}
// Any-like parameters and views: the raw subvalues
extern "C" void check_bind_values() {
  size_t L = sym_param("L", 2); char t[4][3][310]; size_t ln[4][3]; size_t ns[4]; Bindings b; int ran = 0; ExecutionInput in; in.name = "f"; uint32_t k = sym_choice(4, "kind");
  for (int i = 0; i < 3; i++) { ns[i] = sym_choice(3, "subvalues"); coil::Vector<StringView> s; for (size_t j = 0; j < ns[i]; j++) { ln[i][j] = L; sym_bytes(t[i][j], L, "sub"); s.pushBack(StringView{t[i][j], L}); } in.arguments.pushBack(Value{coil::move(s)}); }
  auto raw = [&](Value const& v, int i) { CHECKM(v.subvalues.size() == ns[i], "all subvalues"); bool same = true; for (size_t j = 0; j < ns[i] && j < v.subvalues.size(); j++) same = same && v.subvalues[j].data() == t[i][j] && v.subvalues[j].length() == L; CHECKM(same, "the raw subvalues, unchanged"); };
  switch (k) {
    case 0: b["f"] = [&](Value p, Value q, Value r) { ran++; raw(p, 0); raw(q, 1); raw(r, 2); return p; }; break;
    case 1: b["f"] = [&](Value const& p, Value const& q, Value const& r) { ran++; raw(p, 0); raw(q, 1); raw(r, 2); return p; }; break;
    case 2: b["f"] = [&](Context c, Value p, Value const& q, Value r) { ran++; raw(p, 0); raw(q, 1); raw(r, 2); c.log("x"); return p; }; break;
    default: b["f"] = [&](Value const& p, std::vector<StringView> q, std::vector<StringView> const& r) { ran++; raw(p, 0); bool same = q.size() == ns[1] && r.size() == ns[2]; for (size_t j = 0; same && j < q.size(); j++) same = q[j].data() == t[1][j] && q[j].length() == L; for (size_t j = 0; same && j < r.size(); j++) same = r[j].data() == t[2][j] && r[j].length() == L; CHECKM(same, "a list of views is the subvalues"); return Value{p}; };
  }
  auto r = b.execute(in); CHECK(ran == 1 && r.errors.empty() && r.returnValue.hasValue()); Txt m; for (size_t j = 0; j < ns[0]; j++) { if (j) m.ch(' '); m.add(StringView{t[0][j], L}); } if (r.returnValue.hasValue()) CHECKM(strIs(*r.returnValue, m), "a returned value is its subvalues"); observeResult(r); sym_reach("called");
}
// one parameter of each library type; texts are the caller's bytes
extern "C" void check_bind_mixed() {
  size_t L = sym_param("L", 3); char t[4][8]; for (int i = 0; i < 4; i++) sym_bytes(t[i], L, "text"); char d = (char)sym_u8("digit"); sym_assume((d >= '0') & (d <= '9')); char bo = (char)sym_u8("bool"); sym_assume((bo == '0') | (bo == '1'));
  ExecutionInput in; in.name = "f"; for (int i = 0; i < 4; i++) in.arguments.pushBack(Value{StringView{t[i], L}}); in.arguments.pushBack(Value{StringView{&d, 1}}); in.arguments.pushBack(Value{StringView{&bo, 1}}); Bindings b; int ran = 0; uint32_t k = sym_choice(2, "kind");
  if (k) b["f"] = [&](String const& p, String&& q, StringView r, std::string const& s, int const& i, bool v) { ran++; String own = coil::move(q); CHECKM(strEq(p, StringView{t[0], L}) && strEq(own, StringView{t[1], L}) && r.data() == t[2] && r.length() == L && s.size() == L && bytesEq(s.data(), t[3], L), "texts arrive as they are"); CHECK((i == d - '0') & (v == (bo == '1'))); return r; };
  else b["f"] = [&](Context c, std::string_view p, std::string q, String r, StringView const& s, long i, bool const& v) { ran++; CHECKM(p.data() == t[0] && p.size() == L && q.size() == L && bytesEq(q.data(), t[1], L) && strEq(r, StringView{t[2], L}) && s.data() == t[3] && s.length() == L, "texts arrive as they are"); CHECK((i == d - '0') & (v == (bo == '1'))); return StringView{r.cStr(), 0}; };
  auto r = b.execute(in); CHECK(ran == 1 && r.errors.empty() && r.returnValue.hasValue()); if (r.returnValue.hasValue()) CHECK(k ? strEq(*r.returnValue, StringView{t[2], L}) : r.returnValue->length() == 0); observeResult(r); sym_reach("called");
}
// a bound object is used as it is at the time of the call, through the text of a line
extern "C" void check_bind_line() {
  size_t n = sym_param("N", 3); char line[16] = "m "; sym_bytes(line + 2, n, "line"); Cls o1{1}, o2{2}; Bindings b; uchar cap = 3; b["m"] = coil::bind(&Cls::plain, &o2); b["n"] = coil::bind(&Cls::plain, &o1); gRec.clear(); o2.id = sym_u8("id"); 
  line[n + 2] = ' '; line[n + 3] = 'y'; auto r = b.execute(StringView{line, n + 4});
  if (gRec.calls) { CHECK(gRec.calls == 1 && gRec.self == &o2 && r.errors.empty() && r.returnValue.hasValue() && r.input.arguments.size() == 3); bool same = true; for (size_t i = 0; i < 3; i++) same = same && r.input.arguments[i].subvalues.size() == 1 && (uchar)r.input.arguments[i].subvalues[0][0] == gRec.a[i]; CHECKM(same, "the arguments of the line in order"); sym_reach("called"); }
  else { CHECK(!r.errors.empty()); sym_reach("not called"); } observeResult(r);
}

// ---------------------------------------------------------------- C14
// the kinds of callables, with the signature each has
struct Sig { int arity; const char* p[4]; const char* ret; };
#ifndef ALIAS
#define ALIAS COIL_CONFIG_TYPE_NAME_USE_INTEGER_ALIAS
#endif
#if COIL_CONFIG_TYPE_NAME_USE_INTEGER_ALIAS
#define SC "int8"
#define UC "uint8"
#define SS "int16"
#define US "uint16"
#define SI "int32"
#define UI "uint32"
#define SL "int64"
#define UL "uint64"
#else
#define SC "signed char"
#define UC "unsigned char"
#define SS "short"
#define US "unsigned short"
#define SI "int"
#define UI "unsigned int"
#define SL "long"
#define UL "unsigned long"
#endif
typedef std::vector<std::optional<std::vector<std::optional<unsigned long long>>>> Deep;
struct S { int v = 0; long gl() { return 1; } void sl(long) {} String const& name() const { static String s; return s; }
  Deep const& deep(std::vector<Deep>) const { static Deep d; return d; }
  void m0() {} int m1(short) { return 0; } bool m2(char, unsigned char) const { return false; } float m3(By const&, By) volatile { return 0; } double m4(Context, signed char) & { return 0; } long m5(Context, long long, unsigned long long) const& { return 0; }
  unsigned m6(unsigned short) noexcept { return 0; } unsigned long m7(unsigned) const noexcept { return 0; } StringView m8(StringView const&) const volatile { return {}; } int* m9(int const&) { return nullptr; } S const* unused() const { return this; } short const* m10(Context const&) const { return nullptr; } By& m11(std::string, std::vector<int>) { static By b; return b; } bool m12(std::optional<long>) & noexcept { return 0; } long double m13(long double, float, double) const& noexcept { return 0; } char m14(unsigned long) volatile& { return 0; } };
static void g0() {} static int g1(int) { return 0; } static char const* g2(Context, Value, Value const&) { return ""; } static std::vector<std::optional<int>> g3(std::vector<bool>, std::optional<String> const&, std::string_view) noexcept { return {}; } static By const* const g4(Context const&, By) { return nullptr; } static long long g5(const int, volatile int) { return 0; }
struct F1 { By operator()(int, By) const { return {}; } }; struct F2 { void operator()(Context) {} }; struct F3 { unsigned char operator()(short&&) & noexcept { return 0; } };
static const uint32_t NK = 38;
static S gS; static int gI; static String gStr; static std::vector<long> gV;
template<class A> static void withKind(uint32_t k, A add) { // add(callable, sig)
  S const* cs = &gS; int local = 3; std::unique_ptr<int> owned;
  switch (k) {
    case 0: add(&g0, Sig{0, {}, "void"}); break;
    case 1: add(&g1, Sig{1, {SI}, SI}); break;
    case 2: add(&g2, Sig{2, {"coil::Value", "coil::Value"}, "string"}); break;
    case 3: add(&g3, Sig{3, {"vector<bool>", "optional<string>", "string"}, "vector<optional<" SI ">>"}); break;
    case 4: add(&g4, Sig{1, {"byte"}, "byte"}); break;
    case 5: add(&g5, Sig{2, {SI, SI}, ALIAS ? "long long" : "long long"}); break;
    case 6: add(F1{}, Sig{2, {SI, "byte"}, "byte"}); break;
    case 7: add(F2{}, Sig{0, {}, "void"}); break;
    case 8: add(F3{}, Sig{1, {SS}, UC}); break;
    case 9: add([](int, bool) { return 1.5f; }, Sig{2, {SI, "bool"}, "float"}); break;
    case 10: add([local](Context) mutable { return ++local; }, Sig{0, {}, SI}); break;
    case 11: add([&local](Context, String const&, String&&, StringView) -> String const& { return gStr; }, Sig{3, {"string", "string", "string"}, "string"}); break;
    case 12: add([o = std::move(owned)](Kilo, std::vector<Kilo>) -> Kilo* { return nullptr; }, Sig{2, {"Kilo thing", "vector<Kilo thing>"}, "Kilo thing"}); break;
    case 13: add(coil::bind(&S::m0, &gS), Sig{0, {}, "void"}); break;
    case 14: add(coil::bind(&S::m1, &gS), Sig{1, {SS}, SI}); break;
    case 15: add(coil::bind(&S::m2, cs), Sig{2, {"char", UC}, "bool"}); break;
    case 16: add(coil::bind(&S::m3, &gS), Sig{2, {"byte", "byte"}, "float"}); break;
    case 17: add(coil::bind(&S::m4, &gS), Sig{1, {SC}, "double"}); break;
    case 18: add(coil::bind(&S::m5, cs), Sig{2, {"long long", "unsigned long long"}, SL}); break;
    case 19: add(coil::bind(&S::m6, &gS), Sig{1, {US}, UI}); break;
    case 20: add(coil::bind(&S::m7, &gS), Sig{1, {UI}, UL}); break;
    case 21: add(coil::bind(&S::m8, cs), Sig{1, {"string"}, "string"}); break;
    case 22: add(coil::bind(&S::m9, &gS), Sig{1, {SI}, SI}); break;
    case 23: add(coil::bind(&S::m10, &gS), Sig{0, {}, SS}); break;
    case 24: add(coil::bind(&S::m11, &gS), Sig{2, {"string", "vector<" SI ">"}, "byte"}); break;
    case 25: add(coil::bind(&S::m12, &gS), Sig{1, {"optional<" SL ">"}, "bool"}); break;
    case 26: add(coil::bind(&S::m13, cs), Sig{3, {"long double", "float", "double"}, "long double"}); break;
    case 27: add(coil::bind(&S::m14, &gS), Sig{1, {UL}, "char"}); break;
    case 28: add(std::function<int(long, Kilo const&)>(), Sig{2, {SL, "Kilo thing"}, SI}); break;
    case 29: add([]() -> char const* { return ""; }, Sig{0, {}, "string"}); break;
    case 30: add([](int const&, int&&, const int) -> int const& { return gI; }, Sig{3, {SI, SI, SI}, SI}); break;
    case 31: add([](Context, Pair) -> Pair const* { return nullptr; }, Sig{1, {"Pair"}, "Pair"}); break;
    case 32: add([](By, By, By, By) -> void {}, Sig{4, {"byte", "byte", "byte", "byte"}, "void"}); break;
    case 33: add([](float, signed char) -> std::optional<std::vector<By>> { return {}; }, Sig{2, {"float", SC}, "optional<vector<byte>>"}); break;
    case 34: add([](Deep const&, std::vector<Deep>) -> Deep { return {}; }, Sig{2, {"vector<optional<vector<optional<unsigned long long>>>>", "vector<vector<optional<vector<optional<unsigned long long>>>>>"}, "vector<optional<vector<optional<unsigned long long>>>>"}); break;
    case 35: add([](std::optional<std::vector<Kilo>>) -> std::optional<std::vector<std::vector<std::vector<std::vector<std::vector<std::vector<Kilo>>>>>>>* { return nullptr; }, Sig{1, {"optional<vector<Kilo thing>>"}, "optional<vector<vector<vector<vector<vector<vector<Kilo thing>>>>>>>"}); break;
    case 36: add(coil::bind(&S::deep, &gS), Sig{1, {"vector<vector<optional<vector<optional<unsigned long long>>>>>"}, "vector<optional<vector<optional<unsigned long long>>>>"}); break;
    default: add([](Value, Value const&) -> Value { return Value{}; }, Sig{2, {"coil::Value", "coil::Value"}, "coil::Value"}); break;
  }
}
static void describes(coil::AnyFunctor const& f, Sig const& s) {
  CHECKM(f.arity() == (size_t)s.arity, "the number of user parameters"); CHECKM(f.parameterTypes().size() == (size_t)s.arity, "one name per parameter"); for (size_t i = 0; i < f.parameterTypes().size() && i < (size_t)s.arity; i++) CHECKM(svIs(f.parameterTypes()[i], s.p[i]), "the parameter's type name"); CHECKM(svIs(f.returnType(), s.ret), "the return type's name");
  sym_observe(f.arity(), "arity"); observeView(f.returnType(), "ret"); for (size_t i = 0; i < f.parameterTypes().size(); i++) observeView(f.parameterTypes()[i], "param");
}
struct Put { Bindings& b; StringView n; Sig* s; template<class F> void operator()(F f, Sig sig) { *s = sig; b[n] = std::move(f); } };
struct PutAdd { Bindings& b; StringView n; Sig* s; template<class F> void operator()(F f, Sig sig) { *s = sig; describe(b.add(n, std::move(f)), sig); } static void describe(Bindings::Command const& c, Sig const& s) { CHECK(c.functors.size() == 1); if (c.functors.size() == 1) describes(c.functors[0], s); } };
struct PutVec { coil::Vector<coil::AnyFunctor>& v; Sig* s; template<class F> void operator()(F f, Sig sig) { *s = sig; v.pushBack(coil::detail::createAnyFunctor(std::move(f))); } };
static void describesAll(Bindings const& b, StringView name, Sig const* s, size_t n) {
  auto c = b.get(name); CHECKM(c != nullptr, "the command is there"); if (!c) return; CHECKM(svEq(c->name, name), "under its name"); CHECKM(c->functors.size() == n, "one description per callable"); for (size_t i = 0; i < n && i < c->functors.size(); i++) describes(c->functors[i], s[i]);
}
// one callable
extern "C" void check_intro() {
  uint32_t k = sym_choice(NK, "kind"), how = sym_choice(3, "how"); Sig s{}, z{}; char name[2]; sym_bytes(name, 2, "name"); Bindings b; b["zz"] = [](double, bool) { return 1; }; z = Sig{2, {"double", "bool"}, SI}; sym_assume(!((name[0] == 'z') & (name[1] == 'z')));
  if (how == 0) withKind(k, Put{b, StringView{name, 2}, &s}); else if (how == 1) withKind(k, PutAdd{b, StringView{name, 2}, &s}); else { coil::Vector<coil::AnyFunctor> v; withKind(k, PutVec{v, &s}); b[StringView{name, 2}] = coil::move(v); }
  describesAll(b, StringView{name, 2}, &s, 1); describesAll(b, "zz", &z, 1); CHECKM(!b.get("z"), "nothing else is described"); Bindings m{coil::move(b)}; describesAll(m, StringView{name, 2}, &s, 1); sym_reach("described");
}
// overload sets: the callables in the order given
extern "C" void check_intro_overloads() {
  size_t K = sym_param("K", 2); Sig s[4]; coil::Vector<coil::AnyFunctor> v; Bindings b; for (size_t i = 0; i < K; i++) { uint32_t k = sym_choice(NK, "kind"); withKind(k, PutVec{v, &s[i]}); } b["f"] = coil::move(v); describesAll(b, "f", s, K); Bindings m; m = coil::move(b); describesAll(m, "f", s, K); sym_reach("described");
}
// variables and properties
extern "C" void check_intro_access() {
  Bindings b; uint32_t k = sym_choice(11, "kind"); short v = 1; long const cv = 2; std::vector<int> vec; Kilo ki{'a'}; int pv = 0; S const* cs = &gS; const char* t = nullptr; const char* ro = nullptr;
  switch (k) {
    case 0: b["v"] = coil::variable(&v); t = SS; break; case 1: b["v"] = coil::variable(&cv); t = SL; break; case 2: b["v"] = coil::variable(&vec); t = "vector<" SI ">"; break; case 3: b["v"] = coil::variable((Kilo const*)&ki); t = "Kilo thing"; break; case 4: b["v"] = coil::variable(&gStr); t = "string"; break;
    case 5: b["v"] = coil::property([&] { return pv; }, [&](int x) { pv = x; }); t = SI; break; case 6: b["v"] = coil::property([&]() -> int const& { return pv; }); t = SI; ro = "coil::Value"; break; case 7: b["v"] = coil::bindProperty(&S::gl, &S::sl, &gS); t = SL; break; case 8: b["v"] = coil::bindProperty(&S::name, cs); t = "string"; break; case 9: b["v"] = coil::bindProperty([](S* o) -> int& { return o->v; }, [](S* o, int x) { o->v = x; }, &gS); t = SI; break; default: b["v"] = coil::property([&] { return ki; }, [&](Kilo const& x) { ki = x; }); t = "Kilo thing"; break;
  }
  Sig s[2] = {{0, {}, t}, {1, {ro ? ro : t}, t}}; describesAll(b, "v", s, 2); sym_reach("described");
}
// what the registry says is what executing it shows: the counts it accepts and the types it names in errors
extern "C" void check_intro_agrees() {
  uint32_t k = sym_choice(NK, "kind"); if (k == 28) return; Sig s{}; Bindings b; withKind(k, Put{b, "f", &s}); auto const& f = b.get("f")->functors[0]; uint32_t n = sym_choice(6, "args"); char t[6][2]; ExecutionInput in; in.name = "f";
  for (uint32_t i = 0; i < n; i++) { t[i][0] = '!'; t[i][1] = (char)sym_u8("text"); sym_assume(t[i][1] != 0); in.arguments.pushBack(Value{StringView{t[i], 2}}); }
  auto r = b.execute(in);
  if (n != f.arity()) { CHECKM(!r.errors.empty() && !r.returnValue.hasValue(), "another number of arguments than reported is refused"); sym_reach("refused"); }
  else {
    size_t e = 0;
    for (size_t i = 0; i < n; i++) { StringView ty = f.parameterTypes()[i]; if (svIs(ty, "string") || svIs(ty, "coil::Value") || svIs(ty, "optional<string>")) continue; CHECKM(e < r.errors.size(), "every inconvertible argument is reported"); if (e < r.errors.size()) { if (svIs(ty, "Kilo thing")) CHECK(strIs(r.errors[e], "not a kilo")); else { Txt m; m.add("Unable to convert '").add(StringView{t[i], 2}).add("' to type '").add(ty).ch('\''); CHECKM(r.errors[e].length() >= m.n && bytesEq(r.errors[e].cStr(), m.b, m.n), "the error names the type the registry reports"); } } e++; }
    CHECK(r.errors.size() == e); sym_reach(e ? "inconvertible" : "ran");
  }
  observeResult(r);
}
// signatures of many parameters: every number from 0 to 14 and some beyond, types alike and different next to each other
template<int P, size_t I> static constexpr int typeAt() { return P == 0 ? 0 : P == 1 ? (I / 2) % 6 : P == 2 ? I % 6 : P == 3 ? (I * I + 1) % 6 : P == 4 ? (I < 4 ? 0 : I < 6 ? 1 : 2) : (int)(5 - I % 6); }
template<int T> struct Typed; template<> struct Typed<0> { using P = int; static constexpr const char* n = SI; }; template<> struct Typed<1> { using P = bool const&; static constexpr const char* n = "bool"; }; template<> struct Typed<2> { using P = StringView; static constexpr const char* n = "string"; };
template<> struct Typed<3> { using P = std::vector<int>; static constexpr const char* n = "vector<" SI ">"; }; template<> struct Typed<4> { using P = Kilo; static constexpr const char* n = "Kilo thing"; }; template<> struct Typed<5> { using P = double; static constexpr const char* n = "double"; };
template<int P, size_t... I> static void introWide(std::index_sequence<I...>, uint32_t how) {
  using R = std::remove_cv_t<std::remove_reference_t<typename Typed<(sizeof...(I) + P) % 6>::P>>; static const char* const names[] = {Typed<typeAt<P, I>()>::n..., ""}; const char* ret = Typed<(sizeof...(I) + P) % 6>::n; Bindings b; char name[2]; sym_bytes(name, 2, "name"); StringView nm{name, 2};
  auto plain = [](typename Typed<typeAt<P, I>()>::P...) -> R { return R{}; }; auto context = [](Context, typename Typed<typeAt<P, I>()>::P...) -> R { return R{}; };
  if (how == 0) b[nm] = plain; else if (how == 1) b[nm] = context; else b[nm] = coil::overloaded([](Kilo) {}, context, plain); size_t at = how == 2 ? 1 : 0; Bindings m{coil::move(b)};
  auto* c = m.get(nm); CHECKM(c && c->functors.size() == (how == 2 ? 3 : 1), "one description per callable"); if (!c) return;
  if (how == 2) describes(c->functors[0], Sig{1, {"Kilo thing"}, "void"});
  for (size_t k = at; k < c->functors.size(); k++) { auto const& f = c->functors[k]; CHECKM(f.arity() == sizeof...(I) && f.parameterTypes().size() == sizeof...(I), "the number of user parameters"); for (size_t i = 0; i < f.parameterTypes().size() && i < sizeof...(I); i++) CHECKM(svIs(f.parameterTypes()[i], names[i]), "the parameter's type name"); CHECKM(svIs(f.returnType(), ret), "the return type's name"); }
  sym_reach("described");
}
template<int P, size_t N> static void introWideOne(uint32_t how) { introWide<P>(std::make_index_sequence<N>{}, how); }
template<int P, size_t... N> static void introWideTable(std::index_sequence<N...>, uint32_t n, uint32_t how) { static void (*const table[])(uint32_t) = {&introWideOne<P, (N < 15 ? N : N == 15 ? 33 : 65)>...}; table[n](how); }
extern "C" void check_intro_wide() {
  uint32_t p = sym_choice(6, "pattern"), n = sym_choice(17, "parameters"), how = sym_choice(3, "how"); auto q = std::make_index_sequence<17>{};
  switch (p) { case 0: introWideTable<0>(q, n, how); break; case 1: introWideTable<1>(q, n, how); break; case 2: introWideTable<2>(q, n, how); break; case 3: introWideTable<3>(q, n, how); break; case 4: introWideTable<4>(q, n, how); break; default: introWideTable<5>(q, n, how); }
}
