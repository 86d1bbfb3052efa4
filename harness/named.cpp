// C20 C23: named arguments and logging
#include "values.h"
#include "grammar.h"
#include <stdarg.h>
#include <stdio.h>
using coil::ExecutionInput; using coil::ExecutionResult; using coil::NamedArgs; using coil::NamedValue; typedef NamedArgs::ArgType AT;

struct NamedCase {
  size_t n; char keys[8][4]; size_t kl[8]; char vals[8][4]; size_t vl[8]; int subs[8]; bool compound[8]; char q[4]; size_t ql;
  ExecutionInput in;
  StringView key(size_t i) const { return StringView{keys[i], kl[i]}; } StringView val(size_t i) const { return StringView{vals[i], vl[i]}; } StringView query() const { return StringView{q, ql}; }
  void make(size_t n_, size_t klen, size_t vlen, bool cmp) {
    n = n_; in = ExecutionInput{}; in.name = "f"; in.arguments.pushBack(Value{"positional"});
    for (size_t i = 0; i < n; i++) {
      kl[i] = klen ? klen : sym_choice(3, "keylen"); vl[i] = vlen ? vlen : sym_choice(3, "vallen"); subs[i] = cmp ? (int)((1 + sym_choice(3, "compound")) % 3) : 1; compound[i] = subs[i] != 1;
      sym_bytes(keys[i], kl[i], "key"); sym_bytes(vals[i], vl[i], "val");
      coil::Vector<StringView> s; if (subs[i]) s.pushBack(val(i)); if (subs[i] == 2) s.pushBack("2"); in.namedArguments.pushBack(NamedValue{key(i), Value{coil::move(s)}});
    }
    ql = klen ? klen : sym_choice(3, "querylen"); sym_bytes(q, ql, "query");
  }
  size_t hit() const { for (size_t i = 0; i < n; i++) if (svEq(key(i), query())) return i; return n; }
};
template<class X> static bool refValue(NamedCase& c, size_t i, X* v) { return !c.compound[i] && Ref<X>::ok(c.val(i), v); }
template<class X> static void refError(NamedCase& c, size_t i, Txt& m, const char* type) { if (c.compound[i]) { Txt r; if (c.subs[i]) r.add(c.val(i)).add(" 2"); genericError(m, r.view(), type); m.add(": Expected 1 subvalues, got ").ch((char)('0' + c.subs[i])); } else Ref<X>::err(m, c.val(i)); }

// typed and untyped lookup, without reporting
template<class X> static void lookup(NamedCase& c, const char* type) {
  Bindings b; int ran = 0; size_t h = c.hit(); X want{}; bool conv = h < c.n && refValue<X>(c, h, &want);
  b["f"] = [&](Context ctx, Value) {
    ran++; NamedArgs n = ctx.namedArgs(); CHECKM(n.size() == c.n, "size is the number of named arguments");
    size_t i = 0; for (NamedValue const& v : n) { CHECKM(i < c.n && v.key.data() == c.keys[i] && v.key.length() == c.kl[i], "iteration gives the keys in order"); CHECK(v.value.subvalues.size() == (size_t)c.subs[i]); if (c.subs[i]) CHECK(v.value.subvalues[0].data() == c.vals[i] && v.value.subvalues[0].length() == c.vl[i]); i++; }
    CHECKM(i == c.n, "iteration gives every named argument");
    auto it = n.find(c.query()); CHECKM(h == c.n ? it == n.end() : it == n.begin() + h, "find gives the first occurrence of exactly that key");
    auto any = n.get(c.query()); CHECKM(any.hasValue() == (h < c.n), "an untyped lookup succeeds exactly when the key is there");
    if (any.hasValue() && h < c.n) { Value const& v = *any; CHECKM(&v == &n.begin()[h].value, "and gives that argument"); } 
    else if (!any.hasValue()) { CHECKM(any.error().type == NamedArgs::Error::Type::MissingKey, "a missing key is reported as missing"); Txt m("Missing named argument '"); m.add(c.query()).ch('\''); CHECKM(strIs(any.error().message, m), "the message names the key"); }
    auto e = n.get<X>(c.query()); CHECKM(e.hasValue() == conv, "a typed lookup succeeds exactly when the first occurrence converts");
    if (e.hasValue() && conv) { sym_reach("value"); CHECKM(Ref<X>::eq(*e, want), "and gives its value"); }
    else if (!e.hasValue()) {
      if (h == c.n) { sym_reach("missing"); CHECKM(e.error().type == NamedArgs::Error::Type::MissingKey, "a missing key is not a wrong type"); }
      else { sym_reach("mismatch"); CHECKM(e.error().type == NamedArgs::Error::Type::TypeMismatch, "a wrong type is not a missing key"); Txt m; refError<X>(c, h, m, type); CHECKM(strIs(e.error().message, m), "the message is the conversion's"); }
    }
    CHECKM(!ctx.hasErrors(), "these lookups report nothing"); return "ok";
  };
  auto r = b.execute(c.in); CHECK(ran == 1 && r.errors.empty() && r.returnValue.hasValue()); observeResult(r);
}
extern "C" void check_named_get() { static NamedCase c; c.make(sym_param("K", 2), sym_param("KL", 1), sym_param("VL", 1), true); switch (sym_param("X", 0)) { case 0: lookup<int>(c, "int"); break; case 1: lookup<Kilo>(c, "Kilo thing"); break; default: lookup<bool>(c, "bool"); } c.in = ExecutionInput{}; }

// reporting lookup: value, default or error
template<class X> static void report(NamedCase& c, const char* type, X dflt) {
  Bindings b; int ran = 0; size_t h = c.hit(); X want{}; bool conv = h < c.n && refValue<X>(c, h, &want); uint32_t mode = sym_choice(6, "mode"); // optional/required, with/without default, untyped optional/required
  bool required = mode % 2; coil::Optional<X> got; Value const* any = nullptr; bool anyRight = false;
  b["f"] = [&](Context ctx, Value) {
    ran++; NamedArgs n = ctx.namedArgs(); AT t = required ? AT::Required : AT::Optional;
    if (mode < 2) got = n.getOrReport<X>(c.query(), t); else if (mode < 4) got = n.getOrReport<X>(c.query(), t, dflt); else { any = n.getOrReport(c.query(), t); anyRight = any && h < c.n && any == &n.begin()[h].value; }
    return "ok";
  };
  auto r = b.execute(c.in); CHECK(ran == 1); bool error;
  if (mode < 4) {
    if (conv) { sym_reach("value"); error = false; CHECKM(got.hasValue() && Ref<X>::eq(*got, want), "present and convertible: the value"); }
    else if (h == c.n && !required) { sym_reach("default"); error = false; if (mode == 0) CHECKM(!got.hasValue(), "optional without a default: nothing"); else CHECKM(got.hasValue() && Ref<X>::eq(*got, dflt), "optional and missing: the default"); }
    else { sym_reach("error"); error = true; CHECKM(!got.hasValue(), "otherwise nothing"); }
  } else { error = h == c.n && required; CHECKM((any != nullptr) == (h < c.n), "an untyped lookup gives the value exactly when the key is there"); if (any) CHECKM(anyRight, "the first occurrence"); }
  CHECKM(r.errors.size() == (error ? 1u : 0u), "exactly one error, or none");
  CHECKM(r.returnValue.hasValue() == !error, "a reported error suppresses the return value");
  if (error && r.errors.size() == 1) { Txt m; if (h == c.n) m.add("Missing named argument '").add(c.query()).ch('\''); else refError<X>(c, h, m, type); CHECKM(strIs(r.errors[0], m), "the error says what is wrong"); }
  observeResult(r);
}
extern "C" void check_named_report() { static NamedCase c; c.make(sym_param("K", 2), sym_param("KL", 1), sym_param("VL", 1), true); switch (sym_param("X", 0)) { case 0: report<int>(c, "int", -77); break; case 1: report<Kilo>(c, "Kilo thing", Kilo{'D'}); break; default: report<bool>(c, "bool", true); } c.in = ExecutionInput{}; }
// through text
extern "C" void check_named_line() {
  size_t n = sym_param("N", 4); char* t = (char*)malloc(n + 2); t[0] = 'f'; t[1] = ' '; sym_bytes(t + 2, n, "line"); static RParse ref; refParse(DEFAULT_DELIMS, t, (int)n + 2, ref);
  { Bindings b; int ran = 0; b["f"] = [&](Context c) { ran++; auto na = c.namedArgs(); CHECKM(na.size() == (size_t)ref.nn, "every named argument of the line is there"); size_t i = 0; for (auto& v : na) { CHECK(v.key.data() == t + ref.key[i].off && v.key.length() == (size_t)ref.key[i].len); i++; }
      for (int k = 0; k < ref.nn; k++) { StringView key{t + ref.key[k].off, (size_t)ref.key[k].len}; int first = 0; while (!svEq(key, StringView{t + ref.key[first].off, (size_t)ref.key[first].len})) first++; auto g = na.get<StringView>(key); bool one = ref.v[first].n == 1; CHECKM(g.hasValue() == one, "text values are found"); if (one && g.hasValue()) CHECKM(g->data() == t + ref.v[first].s[0].off && g->length() == (size_t)ref.v[first].s[0].len, "the first occurrence's text"); }
      auto z = na.getOrReport<StringView>("k", AT::Optional, StringView{"none"}); if (z) return String{*z}; return String{"?"}; };
    auto r = b.execute(StringView{t, n + 2}); if (ran && ref.nn) sym_reach("named"); if (ran && ref.nn >= 2) sym_reach("two"); observeResult(r); }
  free(t);
}

// ---------------------------------------------------------------- C23
// every sequence of K steps; the expected output is built next to it
struct LogStep { uint32_t op; char text[4]; size_t len; signed char num; };
static int fmtStep(uint32_t op, char* o, size_t cap, LogStep const& s, char const* z) {
  switch (op) { case 4: return snprintf(o, cap, "%s|%d", z, (int)s.num); case 5: return snprintf(o, cap, "%.*s%%%c", (int)s.len, s.text, 'a' + (s.num & 7)); case 6: return snprintf(o, cap, "no conversion"); default: return snprintf(o, cap, "%s", z); }
}
extern "C" void check_log() {
  size_t k = sym_param("K", 2), n = sym_param("N", 2); static LogStep st[8]; static Txt want; want = Txt(); static char zt[8][8]; int errors = 0; bool nested = false;
  for (size_t i = 0; i < k; i++) {
    LogStep& s = st[i]; s.op = sym_choice(10, "op"); s.len = s.op >= 8 ? 0 : sym_choice((uint32_t)n + 1, "len"); sym_bytes(s.text, s.len, "text"); s.num = (signed char)(s.op == 4 ? sym_choice(3, "num") * 100 - 100 : 3);
    size_t z = 0; if (s.op >= 4) while (z < s.len && s.text[z]) { zt[i][z] = s.text[z]; z++; } zt[i][z] = 0;
    if (s.op == 0 || s.op == 1) want.add(s.text, s.len); else if (s.op == 2 || s.op == 3) want.add(s.text, s.len).ch('\n');
    else if (s.op < 8) { char o[64]; int m = fmtStep(s.op, o, sizeof o, s, zt[i]); want.add(o, (size_t)m); if (s.op == 5 || s.op == 7) want.ch('\n'); } else if (s.op == 8) errors++; else nested = true;
  }
  Bindings b; b["inner"] = [](Context c) { c.log("inner"); c.reportError("inner error"); }; String kept;
  b["f"] = [&](Context c) { for (size_t i = 0; i < k; i++) { LogStep& s = st[i]; switch (s.op) {
      case 0: c.log(String{s.text, s.len}); break; case 1: { Context d = c; kept = String{s.text, s.len}; d.log(kept); break; }
      case 2: c.logline(String{s.text, s.len}); break; case 3: { kept = String{s.text, s.len}; c.logline(kept); break; }
      case 4: c.logf("%s|%d", zt[i], (int)s.num); break; case 5: c.loglinef("%.*s%%%c", (int)s.len, s.text, 'a' + (s.num & 7)); break; case 6: c.logf("no conversion"); break; case 7: c.loglinef("%s", zt[i]); break;
      case 8: c.reportError("reported"); break; default: { auto r = b.execute("inner"); CHECK(strIs(r.output, "inner")); break; } } }
    return 5; };
  auto r = b.execute("f"); CHECKM(strEq(r.output, want.view()), "the output is exactly what was logged"); CHECKM(r.errors.size() == (size_t)errors, "logging adds no errors and loses none"); CHECKM(r.returnValue.hasValue() == (errors == 0), "logging does not touch the return value");
  if (r.returnValue.hasValue()) CHECK(strIs(*r.returnValue, "5")); sym_reach("logged"); if (errors && want.n) sym_reach("with errors"); observeResult(r); kept = String{};
}
// formats of every kind, values symbolic
extern "C" void check_log_formats() {
  uint32_t f = sym_choice(14, "format"); signed char a = 0; uint64_t wide = 0; char o[200]; int n = 0; char t[4]; 
  if (f < 6) a = (signed char)sym_u8("num"); else if (f < 10) wide = sym_u64("wide"); else { sym_bytes(t, 3, "text"); t[3] = 0; }
  Bindings b;
#define FM(...) { n = snprintf(o, sizeof o, __VA_ARGS__); b["f"] = [&](Context c) { c.logf(__VA_ARGS__); c.log("!"); c.loglinef(__VA_ARGS__); }; break; }
  switch (f) { case 0: FM("%d", a) case 1: FM("[%5d]", a) case 2: FM("[%-5d]", a) case 3: FM("%05d", a) case 4: FM("%+d", a) case 5: FM("%i:%hhd", a, a) case 6: FM("%llu", (unsigned long long)wide) case 7: FM("%ld", (long)wide) case 8: FM("%zu", (size_t)wide) case 9: FM("%lld;", (long long)wide)
    case 10: FM("%s-%s", t, t) case 11: FM("[%4s]", t) case 12: FM("[%-4s]", t) default: FM("[%.2s%c]", t, t[0]) }
  auto r = b.execute("f"); Txt w; w.add(o, (size_t)n).ch('!').add(o, (size_t)n).ch('\n'); CHECKM(strIs(r.output, w), "formatted text is the C formatter's"); CHECK(r.errors.empty()); sym_reach("formatted"); observeStr(r.output, "output");
}
// any length: N symbolic bytes in one call, after P bytes already logged
extern "C" void check_log_long() {
  size_t n = sym_param("N", 40), p = sym_param("P", 3); char* t = (char*)malloc(n + 1); sym_bytes(t, n, "text"); t[n] = 0; uint32_t how = sym_choice(4, "how"); if (how >= 2) for (size_t i = 0; i < n; i++) sym_assume(t[i] != 0);
  { Bindings b; b["f"] = [&](Context c) { for (size_t i = 0; i < p; i++) c.log("p"); switch (how) { case 0: c.log(String{t, n}); break; case 1: c.logline(String{t, n}); break; case 2: c.logf("%s", t); break; default: c.loglinef("%s", t); } c.logline(""); };
    auto r = b.execute("f"); size_t len = p + n + (how % 2) + 1; CHECKM(r.output.length() == len, "nothing is lost at any length"); if (r.output.length() == len) { int ok = 1; for (size_t i = 0; i < p; i++) ok &= r.output.cStr()[i] == 'p'; ok &= bytesEq(r.output.cStr() + p, t, n); if (how % 2) ok &= r.output.cStr()[p + n] == '\n'; ok &= (r.output.cStr()[len - 1] == '\n') & (r.output.cStr()[len] == 0); CHECKM(ok, "every byte arrives"); } sym_reach("long"); }
  free(t);
}
// a large volume: C pieces of N symbolic bytes
extern "C" void check_log_volume() {
  size_t n = sym_param("N", 1000), k = sym_param("C", 70); char* t = (char*)malloc(n + 1); sym_bytes(t, n, "text"); t[n] = 0; for (size_t i = 0; i < n; i++) sym_assume(t[i] != 0); uint32_t how = sym_choice(2, "how");
  { Bindings b; b["f"] = [&](Context c) { String s{StringView{t, n}}; for (size_t i = 0; i < k; i++) if (how) c.logline(s); else c.log(s); return 1; }; auto r = b.execute("f"); size_t per = n + how; CHECKM(r.output.length() == k * per && r.errors.empty() && r.returnValue.hasValue(), "nothing is lost in any volume");
    if (r.output.length() == k * per) { int ok = r.output.cStr()[k * per] == 0; for (size_t i = 0; i < k; i++) { ok &= bytesEq(r.output.cStr() + i * per, t, n); if (how) ok &= r.output.cStr()[i * per + n] == '\n'; } CHECKM(ok, "every byte arrives"); } sym_reach("volume"); }
  free(t);
}
