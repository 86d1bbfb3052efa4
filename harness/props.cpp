// C21 C22: variables and properties
#include "values.h"
#include "grammar.h"
using coil::ExecutionInput; using coil::ExecutionResult;
template<class X> static X anyValue(const char* name);
template<> int anyValue<int>(const char* n) { return (int)sym_u32(n); }
template<> bool anyValue<bool>(const char* n) { return sym_choice(2, n) == 1; }
template<> String anyValue<String>(const char* n) { char t[2]; size_t k = sym_choice(3, "len"); sym_bytes(t, k, n); return String{StringView{t, k}}; }
template<> Kilo anyValue<Kilo>(const char* n) { return Kilo{(char)sym_u8(n)}; }
// a type whose text does not say everything: reads one or two bytes, prints the first only
struct Lossy { char a, b; bool operator==(Lossy const& o) const { return (a == o.a) & (b == o.b); } bool operator!=(Lossy const& o) const { return !(*this == o); } };
template<> struct coil::TypeSerializer<Lossy> {
  static coil::Expected<Lossy, coil::String> fromString(coil::Value const& v) {
    if (v.subvalues.size() != 1) return coil::errors::createMismatchedSubvaluesError<Lossy>(v, 1);
    StringView s = v.subvalues[0]; if (s.length() == 0 || s.length() > 2) return coil::makeUnexpected(coil::String{"one or two bytes"});
    return Lossy{s[0], s.length() > 1 ? s[1] : '\0'};
  }
  static coil::String toString(Lossy const& l) { coil::String s; s += l.a; return s; }
};
COIL_CREATE_TYPE_NAME(Lossy, "Lossy");
template<> struct Ref<Lossy> { static bool ok(StringView s, Lossy* v) { if (s.length() == 0 || s.length() > 2) return false; *v = Lossy{s[0], s.length() > 1 ? s[1] : '\0'}; return true; } static void err(Txt& m, StringView) { m.add("one or two bytes"); } static void name(Txt& m) { m.add("Lossy"); } static bool eq(Lossy const& a, Lossy const& b) { return a == b; } };
template<> Lossy anyValue<Lossy>(const char* n) { char t[2]; sym_bytes(t, 2, n); return Lossy{t[0], t[1]}; }
template<> std::optional<int> anyValue<std::optional<int>>(const char* n) { if (sym_choice(2, "engaged")) return (int)sym_u32(n); return std::nullopt; }

template<class X> static X otherValue() { return anyValue<X>("other"); }
template<> int otherValue<int>() { int v = (int)sym_u32("other"); sym_assume((v >= 1000) & (v <= 9999)); return v; } // one print length
template<> std::optional<int> otherValue<std::optional<int>>() { return otherValue<int>(); }

// one argument with symbolic text: sometimes a group of two values
struct Arg {
  char t[320]; size_t n; bool two; 
  void make(size_t len, bool groups) { n = len; sym_bytes(t, n, "arg"); two = groups && sym_choice(2, "group"); }
  StringView view() const { return StringView{t, n}; }
  Value value() const { coil::Vector<StringView> s; s.pushBack(view()); if (two) s.pushBack("2"); return Value{coil::move(s)}; }
};
template<class X> static bool refValue(Arg const& a, X* v) { return !a.two && Ref<X>::ok(a.view(), v); }
template<class X> static void refError(Arg const& a, Txt& m) { if (a.two) { Txt r, n; Ref<X>::name(n); n.ch(0); r.add(a.view()).add(" 2"); genericError(m, r.view(), n.b); m.add(": Expected 1 subvalues, got 2"); } else Ref<X>::err(m, a.view()); }
template<class X> static void readsAs(ExecutionResult const& r, X const& v) {
  CHECKM(r.errors.empty(), "no error"); CHECKM(r.returnValue.hasValue(), "a value"); String t = coil::TypeSerializer<X>::toString(v);
  if (r.returnValue.hasValue()) CHECKM(strEq(*r.returnValue, StringView{t}), "the text of the current value");
}
static void oneError(ExecutionResult const& r, Txt const& m, bool compare) { CHECKM(r.errors.size() == 1, "one error"); CHECKM(!r.returnValue.hasValue(), "no value with an error"); if (compare && r.errors.size() == 1) CHECKM(strIs(r.errors[0], m), "the error says why"); }

// ---------------------------------------------------------------- C21
template<class X> struct Guarded { uint64_t before = 0x1122334455667788ull; X v; uint64_t after = 0x99aabbccddeeff00ull; bool intact() const { return (before == 0x1122334455667788ull) & (after == 0x99aabbccddeeff00ull); } };
template<class X> static void variableCase(bool groups) {
  size_t K = sym_param("K", 2), N = sym_param("N", 2); bool ro = sym_choice(2, "const"); Guarded<X> g{}, h{}; g.v = anyValue<X>("initial"); h.v = otherValue<X>(); X cur = g.v, other = h.v;
  Bindings b; if (ro) b["v"] = coil::variable((X const*)&g.v); else b["v"] = coil::variable(&g.v); b["w"] = coil::variable(&h.v);
  bool direct = sym_choice(2, "outside"); if (direct) { g.v = anyValue<X>("outside"); cur = g.v; }
  for (size_t k = 0; k < K; k++) {
    ExecutionInput in; in.name = "v"; Arg a; uint32_t step = sym_choice(3, "step"); if (step >= 1) { a.make(N, groups); in.arguments.pushBack(a.value()); } if (step == 2) in.arguments.pushBack(Value{"1"});
    auto r = b.execute(in); Txt m;
    if (step == 0) { readsAs(r, cur); sym_reach("read"); }
    else if (step == 2) { CHECKM(r.errors.size() == 1 && !r.returnValue.hasValue(), "two arguments are one too many"); }
    else { X x{}; if (!refValue(a, &x)) { refError<X>(a, m); oneError(r, m, true); sym_reach("inconvertible"); } else if (ro) { m.add("This variable is read-only"); oneError(r, m, true); sym_reach("read-only"); } else { cur = x; readsAs(r, cur); sym_reach("written"); } }
    CHECKM(Ref<X>::eq(g.v, cur), "the object holds exactly the last value stored"); CHECKM(Ref<X>::eq(h.v, other) && g.intact() && h.intact(), "nothing else is touched"); observeResult(r);
  }
  { ExecutionInput in; in.name = "w"; auto r = b.execute(in); readsAs(r, other); }
}
extern "C" void check_variable() { switch (sym_param("X", 0)) { case 0: variableCase<int>(true); break; case 1: variableCase<bool>(true); break; case 2: variableCase<String>(true); break; case 3: variableCase<Kilo>(true); break; case 5: variableCase<Lossy>(true); break; default: variableCase<std::optional<int>>(false); } }
// from text
extern "C" void check_variable_line() {
  size_t n = sym_param("N", 4); bool ro = sym_choice(2, "const"); char* t = (char*)malloc(n + 1); t[0] = 'v'; sym_bytes(t + 1, n, "line"); static RParse ref; refParse(DEFAULT_DELIMS, t, (int)n + 1, ref);
  int g[3] = {71, (int)sym_u32("initial"), 73}, cur = g[1];
  { Bindings b; if (ro) b["v"] = coil::variable((int const*)&g[1]); else b["v"] = coil::variable(&g[1]); auto r = b.execute(StringView{t, n + 1});
    if (ref.err == R_OK && !ref.empty && ref.name.len == 1 && t[ref.name.off] == 'v') {
      if (ref.na == 0) { readsAs(r, cur); sym_reach("read"); }
      else if (ref.na == 1) { int x; RVal const& a = ref.a[0]; if (a.n == 1 && Ref<int>::ok(StringView{t + a.s[0].off, (size_t)a.s[0].len}, &x)) { if (ro) { Txt m("This variable is read-only"); oneError(r, m, true); sym_reach("read-only"); } else { cur = x; readsAs(r, x); sym_reach("written"); } } else CHECK(!r.errors.empty() && !r.returnValue.hasValue()); }
      else CHECK(!r.errors.empty() && !r.returnValue.hasValue());
    } else CHECK(!r.errors.empty() && !r.returnValue.hasValue());
    CHECKM(g[0] == 71 && g[1] == cur && g[2] == 73, "the object holds exactly the last value stored, and nothing else is touched"); observeResult(r); }
  free(t);
}

// ---------------------------------------------------------------- C22
static uchar gMask; // what a transforming setter does to the value
template<class X> static X transform(X v) { return v; }
template<> int transform<int>(int v) { return v ^ gMask; }
template<class X> struct Obj {
  uint64_t guard = 77; X v{}; X last{}; mutable int gets = 0; int sets = 0; uint64_t guard2 = 78;
  X get() { gets++; return v; } void set(X x) { sets++; last = x; v = transform<X>(x); }
  X getC() const { gets++; return v; } X const& getR() const { gets++; return v; } X& getM() { gets++; return v; } void setR(X const& x) { sets++; last = x; v = transform<X>(x); } int setI(X const& x) { setR(x); return 5; }
  X getN() const noexcept { gets++; return v; } void setL(X x) & { set(x); }
};
template<class X> static X freeGet(Obj<X>* o) { return o->get(); } template<class X> static X const& freeGetC(Obj<X> const* o) { return o->getR(); } template<class X> static void freeSet(Obj<X>* o, X const& x) { o->setR(x); } template<class X> static bool freeSetV(Obj<X>* o, X x) { o->set(x); return true; }
template<class X> static Obj<X>* gObj; template<class X> static X plainGet() { return gObj<X>->get(); } template<class X> static void plainSet(X const& x) { gObj<X>->setR(x); }
static const uint32_t KINDS = 17;
template<class X> static bool bindKind(Bindings& b, StringView name, Obj<X>* o, uint32_t kind) { // true: read-only
  using O = Obj<X>; O const* c = o; gObj<X> = o;
  switch (kind) {
    case 0: b[name] = coil::property([o] { return o->get(); }, [o](X x) { o->set(x); }); return false;
    case 1: b[name] = coil::property([o]() -> X const& { return o->getR(); }, [o](X const& x) { o->setR(x); return 3; }); return false;
    case 2: b[name] = coil::property(&plainGet<X>, &plainSet<X>); return false;
    case 3: b[name] = coil::bindProperty(&O::get, &O::set, o); return false;
    case 4: b[name] = coil::bindProperty(&O::getC, &O::setR, o); return false;
    case 5: b[name] = coil::bindProperty(&O::getR, &O::set, o); return false;
    case 6: b[name] = coil::bindProperty(&O::getM, &O::setI, o); return false;
    case 7: b[name] = coil::bindProperty(&O::getN, &O::setL, o); return false;
    case 8: b[name] = coil::bindProperty(&freeGet<X>, &freeSet<X>, o); return false;
    case 9: b[name] = coil::bindProperty(&freeGetC<X>, &freeSetV<X>, o); return false;
    case 10: b[name] = coil::bindProperty([](O* p) { return p->get(); }, [](O* p, X const& x) { p->setR(x); }, o); return false;
    case 11: b[name] = coil::bindProperty(&O::get, &freeSet<X>, o); return false;
    case 12: b[name] = coil::property([o] { return o->get(); }); return true;
    case 13: b[name] = coil::property(&plainGet<X>); return true;
    case 14: b[name] = coil::bindProperty(&O::get, o); return true;
    case 15: b[name] = coil::bindProperty(&O::getR, c); return true;
    default: b[name] = coil::bindProperty(&freeGetC<X>, c); return true;
  }
}
template<class X> static void propertyCase() {
  size_t K = sym_param("K", 2), N = sym_param("N", 2); uint32_t kind = sym_choice(KINDS, "kind"); Obj<X> o, p; o.v = anyValue<X>("initial"); p.v = anyValue<X>("other"); X pv = p.v; gMask = sym_u8("mask");
  Bindings b; if (kind != 2 && kind != 13) bindKind<X>(b, "q", &p, kind); bool ro = bindKind<X>(b, "p", &o, kind); X cur = o.v, last = o.last; int sets = 0;
  CHECKM(o.sets == 0 && p.sets == 0, "binding a property does not write it");
  for (size_t k = 0; k < K; k++) {
    ExecutionInput in; in.name = "p"; Arg a; uint32_t step = sym_choice(3, "step"); if (step >= 1) { a.make(N, true); in.arguments.pushBack(a.value()); } if (step == 2) in.arguments.pushBack(Value{"1"});
    int gets = o.gets; auto r = b.execute(in); Txt m;
    if (step == 0) { readsAs(r, cur); CHECKM(o.gets > gets, "reading calls the getter"); sym_reach("read"); }
    else if (step == 2) { CHECKM(r.errors.size() == 1 && !r.returnValue.hasValue(), "two arguments are one too many"); }
    else { X x{}; bool conv = refValue(a, &x);
      if (ro && (kind == 12 || kind == 13 || conv)) { m.add("This property is read-only"); oneError(r, m, true); sym_reach("read-only"); }
      else if (!conv) { refError<X>(a, m); oneError(r, m, true); sym_reach("inconvertible"); }
      else { sets++; last = x; cur = transform<X>(x); readsAs(r, cur); CHECKM(o.gets > gets, "a write returns what the getter gives"); sym_reach("written"); } }
    CHECKM(o.sets == sets, "the setter is called exactly once per write"); CHECKM(Ref<X>::eq(o.last, last), "with exactly the converted value"); CHECKM(Ref<X>::eq(o.v, cur), "only the setter modifies the object");
    CHECKM(Ref<X>::eq(p.v, pv) && p.sets == 0 && p.gets == 0 && o.guard == 77 && o.guard2 == 78 && p.guard == 77, "no other object is touched"); observeResult(r);
  }
}
extern "C" void check_property() { switch (sym_param("X", 0)) { case 0: propertyCase<int>(); break; case 1: propertyCase<String>(); break; case 2: propertyCase<Kilo>(); break; case 4: propertyCase<Lossy>(); break; default: propertyCase<bool>(); } }
