// Shared by all harnesses.
#pragma once
#include "sym.h"
#include "coil/Coil.h"
#include "coil/detail/DefaultLexer.h"
#include <string.h>
#include <stdlib.h>

typedef unsigned char uchar;
using coil::StringView; using coil::String; using coil::Vector; using coil::Bindings; using coil::Value; using coil::Context;

// an exact-size heap copy of symbolic text: any access outside it is reported
struct Line {
  char* p; size_t n;
  Line(size_t n, const char* name = "line") : p((char*)malloc(n ? n : 1)), n(n) { sym_bytes(p, n, name); }
  Line(const char* s) : p((char*)malloc(strlen(s) ? strlen(s) : 1)), n(strlen(s)) { for (size_t i = 0; i < n; i++) p[i] = s[i]; }
  ~Line() { free(p); }
  Line(Line const&) = delete; Line& operator=(Line const&) = delete;
  StringView view() const { return StringView{p, n}; }
};

static inline int bytesEq(const char* a, const char* b, size_t n) { int r = 1; for (size_t i = 0; i < n; i++) r &= (a[i] == b[i]); return r; } // branch-free
static inline bool svEq(StringView a, StringView b) { return a.length() == b.length() && bytesEq(a.data(), b.data(), a.length()); }
static inline bool svIs(StringView a, const char* s) { return svEq(a, StringView{s, strlen(s)}); }
static inline bool strIs(String const& a, const char* s) { return a.length() == strlen(s) && bytesEq(a.cStr(), s, a.length()) && a.cStr()[a.length()] == 0; }
static inline bool strEq(String const& a, StringView s) { return a.length() == s.length() && bytesEq(a.cStr(), s.data(), a.length()) && a.cStr()[a.length()] == 0; }

// text builder for expected messages (independent of coil's formatting)
struct Txt {
  char b[20000]; size_t n = 0;
  Txt() {}
  Txt(const char* s) { add(s); }
  Txt& add(const char* s) { while (*s && n < sizeof b) b[n++] = *s++; return *this; }
  Txt& add(const char* s, size_t k) { for (size_t i = 0; i < k && n < sizeof b; i++) b[n++] = s[i]; return *this; }
  Txt& add(StringView v) { return add(v.data(), v.length()); }
  Txt& ch(char c) { if (n < sizeof b) b[n++] = c; return *this; }
  Txt& num(unsigned long long v) { char t[24]; int k = 0; do { t[k++] = (char)('0' + v % 10); v /= 10; } while (v); while (k) ch(t[--k]); return *this; }
  StringView view() const { return StringView{b, n}; }
};
static inline bool strIs(String const& a, Txt const& t) { return strEq(a, t.view()); }
static inline void observeStr(String const& s, const char* name) { sym_observe(s.length(), name); sym_observe_bytes(s.cStr(), s.length(), name); }
static inline void observeView(StringView s, const char* name) { sym_observe(s.length(), name); sym_observe_bytes(s.data(), s.length(), name); }
static inline void observeResult(coil::ExecutionResult const& r) {
  sym_observe(r.errors.size(), "errors"); for (size_t i = 0; i < r.errors.size(); i++) observeStr(r.errors[i], "error");
  sym_observe(r.returnValue.hasValue(), "hasReturn"); if (r.returnValue.hasValue()) observeStr(*r.returnValue, "return");
  observeStr(r.output, "output"); observeView(r.input.name, "name");
  sym_observe(r.input.arguments.size(), "args");
  for (size_t i = 0; i < r.input.arguments.size(); i++) { sym_observe(r.input.arguments[i].subvalues.size(), "subs"); for (size_t j = 0; j < r.input.arguments[i].subvalues.size(); j++) observeView(r.input.arguments[i].subvalues[j], "sub"); }
  sym_observe(r.input.namedArguments.size(), "named");
  for (size_t i = 0; i < r.input.namedArguments.size(); i++) { observeView(r.input.namedArguments[i].key, "key"); sym_observe(r.input.namedArguments[i].value.subvalues.size(), "nsubs"); for (size_t j = 0; j < r.input.namedArguments[i].value.subvalues.size(); j++) observeView(r.input.namedArguments[i].value.subvalues[j], "nsub"); }
}
