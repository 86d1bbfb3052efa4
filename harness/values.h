// Reference conversions shared by harnesses: what the properties say a text means.
#pragma once
#include "common.h"
#include "coil/StdLibCompat.h"
#include "coil/detail/Expected.h"
#include <limits>
typedef unsigned long long ull;

static int isWs(char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
static int isDig(char c) { return (c >= '0') & (c <= '9'); }
// the property's definition of an integer text; mag is exact when !big
struct IntText { bool ok, neg, big; ull mag; };
static IntText refInt(const char* p, size_t n) {
  IntText r{false, false, false, 0}; size_t i = 0;
  while (i < n && isWs(p[i])) i++;
  if (i < n && (p[i] == '-' || p[i] == '+')) { r.neg = p[i] == '-'; i++; }
  size_t d = i;
  for (; i < n; i++) { if (!isDig(p[i])) return r; unsigned v = (unsigned)(p[i] - '0'); if (i - d >= 15) { if (r.big || r.mag > (~0ull - v) / 10) { r.big = true; continue; } } r.mag = r.mag * 10 + v; }
  r.ok = i > d; return r;
}
template<class X> static bool inRange(IntText t) { if (!t.ok || t.big) return false; ull hi = (ull)std::numeric_limits<X>::max(); if (!t.neg) return t.mag <= hi; return std::numeric_limits<X>::min() == 0 ? t.mag == 0 : t.mag <= hi + 1; }
template<class X> static const char* tname();
#define N(T, s) template<> const char* tname<T>() { return s; }
N(char, "char") N(signed char, "signed char") N(unsigned char, "unsigned char") N(short, "short") N(unsigned short, "unsigned short") N(int, "int") N(unsigned, "unsigned int") N(long, "long") N(unsigned long, "unsigned long") N(long long, "long long") N(ull, "unsigned long long") N(float, "float") N(double, "double") N(long double, "long double") N(bool, "bool") N(String, "string") N(StringView, "string") N(std::string, "string") N(std::string_view, "string")
#undef N
static void genericError(Txt& m, StringView repr, const char* type) { m.add("Unable to convert '").add(repr).add("' to type '").add(type).ch('\''); }

// a user type: accepts texts that begin with 'k'; its own error text otherwise
struct Kilo { char c; bool operator==(Kilo const& o) const { return c == o.c; } bool operator!=(Kilo const& o) const { return c != o.c; } };
template<> struct coil::TypeSerializer<Kilo> {
  static coil::Expected<Kilo, coil::String> fromString(coil::Value const& v) {
    if (v.subvalues.size() != 1) return coil::errors::createMismatchedSubvaluesError<Kilo>(v, 1);
    if (v.subvalues[0].length() == 0 || v.subvalues[0][0] != 'k') return coil::makeUnexpected(coil::String{"not a kilo"});
    return Kilo{v.subvalues[0].length() > 1 ? v.subvalues[0][1] : 'k'};
  }
  static coil::String toString(Kilo const& k) { coil::String s = "<"; s += k.c; s += '>'; return s; }
};
COIL_CREATE_TYPE_NAME(Kilo, "Kilo thing");
// a user type made of two subvalues
struct Pair { char a, b; bool operator==(Pair const& o) const { return (a == o.a) & (b == o.b); } bool operator!=(Pair const& o) const { return !(*this == o); } };
template<> struct coil::TypeSerializer<Pair> {
  static coil::Expected<Pair, coil::String> fromString(coil::Value const& v) {
    if (v.subvalues.size() != 2) return coil::errors::createMismatchedSubvaluesError<Pair>(v, 2);
    for (size_t i = 0; i < 2; i++) if (v.subvalues[i].length() != 1) return coil::errors::createGenericError<Pair>(v, v.subvalues[i]);
    return Pair{v.subvalues[0][0], v.subvalues[1][0]};
  }
  static coil::String toString(Pair const& k) { coil::String s; s += k.a; s += '+'; s += k.b; return s; }
};
COIL_CREATE_TYPE_NAME(Pair, "Pair");

// reference conversion of one subvalue: ok, and the error text it gives alone
template<class X> struct Ref;
template<> struct Ref<int> { static bool ok(StringView s, int* v) { IntText t = refInt(s.data(), s.length()); if (!inRange<int>(t)) return false; *v = (int)(t.neg ? 0 - t.mag : t.mag); return true; } static void err(Txt& m, StringView s) { genericError(m, s, "int"); } static void name(Txt& m) { m.add("int"); } static bool eq(int a, int b) { return a == b; } };
template<> struct Ref<bool> { static bool ok(StringView s, bool* v) { auto ci = [&](const char* w) { if (s.length() != strlen(w)) return 0; int r = 1; for (size_t i = 0; i < s.length(); i++) r &= (s[i] == w[i]) | (s[i] == w[i] - 32); return r; }; if (svIs(s, "1") | ci("true")) { *v = true; return true; } if (svIs(s, "0") | ci("false")) { *v = false; return true; } return false; } static void err(Txt& m, StringView s) { genericError(m, s, "bool"); } static void name(Txt& m) { m.add("bool"); } static bool eq(bool a, bool b) { return a == b; } };
template<> struct Ref<String> { static bool ok(StringView s, String* v) { *v = String{s}; return true; } static void err(Txt&, StringView) {} static void name(Txt& m) { m.add("string"); } static bool eq(String const& a, String const& b) { return strEq(a, StringView{b}); } };
template<> struct Ref<Kilo> { static bool ok(StringView s, Kilo* v) { if (s.length() == 0 || s[0] != 'k') return false; v->c = s.length() > 1 ? s[1] : 'k'; return true; } static void err(Txt& m, StringView) { m.add("not a kilo"); } static void name(Txt& m) { m.add("Kilo thing"); } static bool eq(Kilo a, Kilo b) { return a.c == b.c; } };
template<class X> struct Ref<std::optional<X>> {
  static bool ok(StringView s, std::optional<X>* v) { if (s.length() == 0) { v->reset(); return true; } X x{}; if (!Ref<X>::ok(s, &x)) return false; *v = x; return true; }
  static void err(Txt& m, StringView s) { Txt n, d; name(n); n.ch(0); Ref<X>::err(d, s); genericError(m, s, n.b); m.add(": ").add(d.view()); }
  static void name(Txt& m) { m.add("optional<"); Ref<X>::name(m); m.ch('>'); } static bool eq(std::optional<X> const& a, std::optional<X> const& b) { return a.has_value() == b.has_value() && (!a.has_value() || Ref<X>::eq(*a, *b)); }
};
