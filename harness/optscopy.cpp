// compiled once per configuration of the library (-DCOPY=<name> -Dcoil=coil_<name>): runs the same case and writes everything observable to a flat buffer
#include "opts.h"
#include "coil/Coil.h"
#include "coil/StdLibCompat.h"
#include "coil/detail/DefaultLexer.h"
#include "coil/detail/UnorderedMap.h"
#include <string.h>
#include <stdlib.h>
namespace { // (in every copy)
using coil::StringView; using coil::String; using coil::Bindings; using coil::Context; using coil::Value;
void put(Out& o, uint64_t v) { for (int i = 0; i < 2; i++) o.ch((char)(v >> (8 * i))); }
void put(Out& o, StringView s) { put(o, s.length()); for (char c : s) o.ch(c); }
void put(Out& o, Value const& v) { put(o, v.subvalues.size()); for (StringView s : v.subvalues) put(o, s); }
void put(Out& o, coil::ExecutionResult const& r) {
  put(o, r.errors.size()); for (auto const& e : r.errors) put(o, StringView{e}); put(o, r.returnValue.hasValue()); if (r.returnValue) put(o, StringView{*r.returnValue}); put(o, StringView{r.output});
  put(o, r.input.name); put(o, r.input.arguments.size()); for (auto const& a : r.input.arguments) put(o, a); put(o, r.input.namedArguments.size()); for (auto const& a : r.input.namedArguments) { put(o, a.key); put(o, a.value); }
}
void put(Out& o, Bindings const& b, const char* const* names, size_t n) { for (size_t i = 0; i < n; i++) { auto* c = b.get(names[i]); put(o, c != nullptr); if (c) { put(o, c->name); put(o, c->functors.size()); for (auto const& f : c->functors) { put(o, f.arity()); o.type(f.returnType().data(), f.returnType().length()); for (auto t : f.parameterTypes()) o.type(t.data(), t.length()); } } } }
struct Tag { int v; };
struct Obj { short v = 4; short get() const { return v; } void set(short x) { v = x; } };
struct World {
  Bindings b; int var = 7; bool flag = false; String text = "t"; unsigned char small = 9; const long fixed = 3; Obj obj;
  World() {
    b["a"] = [](int x) { return x; }; b["b"] = coil::overloaded([](Context c) { c.log("none"); }, [](String const& s) { return s; }, [](Context c, bool x, unsigned char y) { c.logf("%d %d", (int)x, (int)y); return y; }, [](StringView s) { return s.length(); }, [](Context c) { c.log("second"); return 1; });
    b["v"] = coil::variable(&var); b["w"] = coil::variable(&text); b["x"] = coil::variable(&fixed); b["p"] = coil::bindProperty(&Obj::get, &Obj::set, &obj); b["l"] = [](std::vector<short> const& v) { return v; };
    b["o"] = [](std::optional<unsigned> v) { return v; }; b["n"] = [](Context c) { auto v = c.namedArgs().getOrReport<long long>("k", coil::NamedArgs::ArgType::Required); return v ? *v : -1; }; b["r"] = [](Value const& v, StringView s) { return String{s} + v.str(); };
    b["e"] = [](Context c, StringView s) { c.log("x"); c.reportError(String{s}); return 1; }; b["q"] = [this](Context c, StringView s) { auto r = b.execute(s); c.log(r.output); for (auto& e : r.errors) c.reportError(e); return r.returnValue ? *r.returnValue : String{"-"}; };
  }
};
const char* const NAMES[] = {"a", "b", "v", "w", "x", "p", "l", "o", "n", "r", "e", "q", "?"};
} // namespace
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
extern "C" void CAT(opts_lines_, COPY)(const char* const* t, const size_t* n, size_t k, Out* o) { *o = Out{}; World w; for (size_t i = 0; i < k; i++) put(*o, w.b.execute(StringView{t[i], n[i]})); put(*o, (uint64_t)(unsigned)w.var); put(*o, StringView{w.text}); put(*o, (uint64_t)(unsigned short)w.obj.v); put(*o, (uint64_t)w.flag); }
extern "C" void CAT(opts_names_, COPY)(Out* o) { *o = Out{}; World w; put(*o, w.b, NAMES, sizeof NAMES / sizeof *NAMES); }
// a command that throws something, then an ordinary one
extern "C" void CAT(opts_throw_, COPY)(uint32_t kind, const char* t, size_t n, Out* o) { *o = Out{};
  World w; w.b["t"] = [kind](Context c, StringView s) -> int { c.log("before"); if (kind == 3) c.reportError("own"); if (kind == 0 || kind == 3) throw Tag{(int)s.length()}; if (kind == 1) throw String{s}; return 5; };
  coil::ExecutionInput in; in.name = "t"; in.arguments.pushBack(Value{StringView{t, n}}); try { auto r = w.b.execute(static_cast<coil::ExecutionInput&&>(in)); o->threw = 0; put(*o, r); } catch (Tag const& e) { o->threw = 1; o->caught = e.v; } catch (String const& s) { o->threw = 2; o->caught = (int)s.length(); } catch (...) { o->threw = 3; }
  Out x; put(x, w.b.execute("a 12")); put(x, w.b, NAMES, 3); for (size_t i = 0; i < x.n; i++) o->after ^= (uint64_t)(unsigned char)x.b[i] << (8 * (i % 8));
}
// conversion to one type: the error text with the library's own name of the type replaced
template<class T> static void conv(const char* t, size_t n, Out* o) {
  Value v{StringView{t, n}}; auto r = coil::TypeSerializer<T>::fromString(v); StringView nm = coil::TypeName<T>::name(); o->type(nm.data(), nm.length());
  if (r) { put(*o, StringView{coil::TypeSerializer<T>::toString(*r)}); return; } String const& e = r.error(); size_t pre = 19 + n + 11;
  bool at = e.length() >= pre + nm.length(); for (size_t i = 0; at && i < nm.length(); i++) if (e.cStr()[pre + i] != nm[i]) at = false; if (!at) { o->ch('!'); put(*o, StringView{e}); return; } o->ch('?'); put(*o, StringView{e.cStr(), pre}); put(*o, StringView{e.cStr() + pre + nm.length(), e.length() - pre - nm.length()});
}
extern "C" void CAT(opts_conv_, COPY)(uint32_t type, const char* t, size_t n, Out* o) { *o = Out{};
  switch (type) { case 0: conv<char>(t, n, o); break; case 1: conv<signed char>(t, n, o); break; case 2: conv<unsigned char>(t, n, o); break; case 3: conv<short>(t, n, o); break; case 4: conv<unsigned short>(t, n, o); break; case 5: conv<int>(t, n, o); break; case 6: conv<unsigned>(t, n, o); break; case 7: conv<long>(t, n, o); break; case 8: conv<unsigned long>(t, n, o); break; case 9: conv<long long>(t, n, o); break; case 10: conv<unsigned long long>(t, n, o); break; case 11: conv<bool>(t, n, o); break; case 12: conv<String>(t, n, o); break; case 13: conv<StringView>(t, n, o); break; case 14: conv<std::string>(t, n, o); break; }
}
// a history of registry and container operations, spelled by bytes
struct PKey { unsigned char k; bool operator==(PKey const& o) const { return k == o.k; } bool operator!=(PKey const& o) const { return k != o.k; } }; template<> struct coil::Hash<PKey> { size_t operator()(PKey const& p) { return p.k & 3; } };
extern "C" void CAT(opts_history_, COPY)(const unsigned char* s, size_t k, const unsigned char* val, Out* o) { *o = Out{};
  { Bindings b, other; coil::UnorderedMap<PKey, unsigned char> m{1, 2.0f}; coil::Vector<String> v; String t; coil::Optional<String> op; static const char* const N[] = {"a", "b", "q", "a!"}; for (unsigned char i = 0; i < 5; i++) m.insertOrAssign(PKey{(unsigned char)(i * 4 + (i == 3))}, i);
    for (size_t i = 0; i < k; i++) { unsigned op_ = s[i] % 16, x = s[i] / 16; unsigned char y = val[i]; switch (op_) {
      case 0: b[N[x % 4]] = [y] { return y; }; break; case 1: b[N[x % 4]] = coil::overloaded([y] { return y; }, [y](short z) { return z + y; }); break; case 2: b.remove(N[x % 4]); break; case 3: b.clear(); break; case 4: other = static_cast<Bindings&&>(b); b = static_cast<Bindings&&>(other); break;
      case 5: m.insertOrAssign(PKey{(unsigned char)(x * 4 % 20)}, y); break; case 6: m.erase(PKey{(unsigned char)(x * 4 % 20)}); break; case 7: { auto it = m.find(PKey{(unsigned char)(x * 4 % 20)}); put(*o, it != m.end()); if (it != m.end()) put(*o, (uint64_t)it->value()); break; }
      case 8: { char c[2] = {(char)y, 'z'}; v.pushBack(String{c, 1 + x % 2}); break; } case 9: if (v.size()) v.popBack(); break; case 10: v.resize(x % 4); break; case 11: if (v.size()) { v.pushBack(v[0]); coil::Vector<String> w{v}; v = w; } break; 
      case 12: t += (char)y; break; case 13: t += t; t.resize(t.length() > x ? t.length() - x : 0); break; case 14: op = v.size() ? coil::Optional<String>{v.back()} : coil::Optional<String>{}; break; default: if (op) t += *op; }
      put(*o, m.size()); put(*o, v.size()); put(*o, StringView{t}); for (auto const& e : v) put(*o, StringView{e}); }
    for (auto const& e : m) { put(*o, (uint64_t)e.key().k); put(*o, (uint64_t)e.value()); } for (auto n : N) put(*o, b.execute(n)); put(*o, b.execute("q 5")); }
}
