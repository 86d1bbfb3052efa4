// C02 C04 C05 C06: the command-line parser
#include "grammar.h"
#include "coil/detail/Expected.h"
#include "coil/detail/Lexer.h"
using coil::DefaultLexer; using coil::ExecutionInput;

static void compareParse(ExecutionInput const& in, const char* base, RParse const& r) {
  if (r.empty) { CHECKM(in.name.empty() && in.arguments.empty() && in.namedArguments.empty(), "an empty line parses to an empty input"); sym_reach("empty"); return; }
  CHECKM(spanIs(in.name, base, r.name), "the first token is the function name");
  CHECKM(in.arguments.size() == (size_t)r.na, "number of positional arguments"); if (in.arguments.size() != (size_t)r.na) return;
  for (int i = 0; i < r.na; i++) CHECKM(valueIs(in.arguments[i], base, r.a[i]), "positional argument value");
  CHECKM(in.namedArguments.size() == (size_t)r.nn, "number of named arguments"); if (in.namedArguments.size() != (size_t)r.nn) return;
  for (int i = 0; i < r.nn; i++) { CHECKM(spanIs(in.namedArguments[i].key, base, r.key[i]), "named argument key"); CHECKM(valueIs(in.namedArguments[i].value, base, r.v[i]), "named argument value"); }
}
static void observeParse(coil::Expected<ExecutionInput, String> const& got, const char* base) {
  sym_observe(got.hasValue(), "ok");
  if (!got) { observeStr(got.error(), "error"); return; }
  sym_observe(got->name.length(), "name"); sym_observe(got->arguments.size(), "args"); sym_observe(got->namedArguments.size(), "named");
  for (size_t i = 0; i < got->arguments.size(); i++) for (size_t j = 0; j < got->arguments[i].subvalues.size(); j++) { sym_observe(got->arguments[i].subvalues[j].data() - base, "off"); sym_observe(got->arguments[i].subvalues[j].length(), "len"); }
}
static void checkMessage(String const& msg, const char* base, RParse const& r) {
  Txt m; refMessage(base, r, m); CHECKM(strIs(msg, m), "the error message describes the first offence");
}
static void checkAgainst(DefaultLexer const& lexer, Delims const& d, Line const& line, bool message) {
  auto got = lexer.parse(line.view());
  static RParse r; refParse(d, line.p, (int)line.n, r);
  observeParse(got, line.p);
  if (got) {
    sym_reach("parsed"); CHECKM(r.err == R_OK, "a malformed line is rejected");
    if (r.err) return;
    compareParse(*got, line.p, r);
    if (r.na) sym_reach("positional"); if (r.nn) sym_reach("named");
    for (int i = 0; i < r.na; i++) if (r.a[i].n > 1) sym_reach("compound");
  } else {
    sym_reach("rejected"); CHECKM(r.err != R_OK, "a well-formed line is accepted");
    if (message && r.err) checkMessage(got.error(), line.p, r);
  }
}

extern "C" void check_lex() {
  Line line(sym_param("N", 4)); DefaultLexer lexer; checkAgainst(lexer, DEFAULT_DELIMS, line, true);
}

// longer lines: K pieces, each a token of some shape with symbolic content, or punctuation
static void piece(Txt& t, uint32_t shape) {
  char c[3]; auto text = [&](int n) { sym_bytes(c, n, "text"); for (int i = 0; i < n; i++) sym_assume((cls(DEFAULT_DELIMS, c[i]) == C_TEXT) & !isSep(DEFAULT_DELIMS, c[i])); t.add(c, n); };
  switch (shape) {
    case 0: t.ch('='); break;
    case 1: t.ch(' '); text(1); t.ch(' '); break;
    case 2: t.ch('"'); t.ch('x').ch('\''); break;                    // either quote closes
    case 3: t.ch('('); text(1); t.ch('|').ch('\'').ch(' ').ch('\'').ch(')'); break;
    case 4: text(1); t.ch(','); text(1); break;
    case 5: t.add("()"); break;
    case 6: t.add("''"); break;
    case 7: { char s[1]; sym_bytes(s, 1, "sep"); sym_assume(isSep(DEFAULT_DELIMS, s[0])); t.ch('(').ch('"').ch(s[0]).ch('"').ch(s[0]).ch('b').ch(s[0]).ch('('); break; }
  }
}
extern "C" void check_lex_tokens() {
  size_t k = sym_param("K", 4); Txt t; t.add("f");
  for (size_t i = 0; i < k; i++) piece(t, sym_choice(8, "shape"));
  t.ch(0); t.n--; // Line copies a C string
  char* p = (char*)malloc(t.n); for (size_t i = 0; i < t.n; i++) p[i] = t.b[i];
  { struct V { char* p; size_t n; } v{p, t.n}; DefaultLexer lexer; auto got = lexer.parse(StringView{p, t.n}); static RParse r; refParse(DEFAULT_DELIMS, p, (int)t.n, r);
    observeParse(got, p);
    if (got) { sym_reach("parsed"); CHECKM(r.err == R_OK, "a malformed line is rejected"); if (!r.err) { compareParse(*got, p, r); if (r.nn >= 2) sym_reach("two named"); if (r.na >= 3) sym_reach("three positional"); } }
    else { sym_reach("rejected"); CHECKM(r.err != R_OK, "a well-formed line is accepted"); if (r.err) checkMessage(got.error(), p, r); } }
  free(p);
}
extern "C" void check_lex_args() {
  Txt t; argLine(t, sym_param("K", 2));
  char* p = (char*)malloc(t.n); for (size_t i = 0; i < t.n; i++) p[i] = t.b[i];
  { DefaultLexer lexer; auto got = lexer.parse(StringView{p, t.n}); static RParse r; refParse(DEFAULT_DELIMS, p, (int)t.n, r); observeParse(got, p);
    if (got) { sym_reach("parsed"); CHECKM(r.err == R_OK, "a malformed line is rejected"); if (!r.err) compareParse(*got, p, r); }
    else { sym_reach("rejected"); CHECKM(r.err != R_OK, "a well-formed line is accepted"); if (r.err) checkMessage(got.error(), p, r); } }
  free(p);
}
// many arguments and many subvalues, symbolic content
extern "C" void check_lex_wide() {
  size_t na = sym_param("A", 20), ns = sym_param("S", 10), nn = sym_param("M", 8);
  Txt t("f"); char c[64]; sym_bytes(c, 64, "c"); for (int i = 0; i < 64; i++) sym_assume((cls(DEFAULT_DELIMS, c[i]) == C_TEXT) & !isSep(DEFAULT_DELIMS, c[i])); int u = 0;
  for (size_t i = 0; i < na; i++) t.ch(' ').ch(c[u++ % 64]);
  t.add(" ("); for (size_t i = 0; i < ns; i++) { if (i) t.ch(i % 2 ? ',' : ' '); t.ch(c[u++ % 64]); } t.ch(')');
  for (size_t i = 0; i < nn; i++) { t.ch(' ').ch(c[u++ % 64]).ch('='); if (i % 2) t.ch('\'').ch(' ').ch('\''); else t.ch(c[u++ % 64]); }
  char* p = (char*)malloc(t.n); for (size_t i = 0; i < t.n; i++) p[i] = t.b[i];
  { DefaultLexer lexer; auto got = lexer.parse(StringView{p, t.n}); static RParse r; refParse(DEFAULT_DELIMS, p, (int)t.n, r);
    CHECKM(got.hasValue() && !r.err, "a well-formed line is accepted"); if (got) { compareParse(*got, p, r); CHECK(r.na == (int)na + 1 && r.nn == (int)nn && r.a[na].n == (int)ns); sym_reach("wide"); } observeParse(got, p); }
  free(p);
}

// C04: every piece is a sub-range of the caller's text, in source order, and parsing changes nothing
extern "C" void check_views() {
  Line line(sym_param("N", 4)); size_t n = line.n; char* copy = (char*)malloc(n ? n : 1); for (size_t i = 0; i < n; i++) copy[i] = line.p[i];
  DefaultLexer lexer; auto got = lexer.parse(line.view());
  CHECKM(bytesEq(copy, line.p, n), "parsing does not modify the text"); free(copy);
  observeParse(got, line.p);
  if (!got) { sym_reach("rejected"); return; }
  auto inside = [&](StringView v) { return v.data() >= line.p && v.data() + v.length() <= line.p + n; };
  if (got->name.empty() && got->arguments.empty() && got->namedArguments.empty()) { sym_reach("nothing"); return; }
  CHECKM(inside(got->name), "the name is part of the text");
  const char* at = got->name.data() + got->name.length();
  for (size_t i = 0; i < got->arguments.size(); i++) { auto& v = got->arguments[i].subvalues; for (size_t j = 0; j < v.size(); j++) { sym_reach("positional"); if (v.size() > 1) sym_reach("compound"); CHECKM(inside(v[j]), "a subvalue is part of the text"); CHECKM(v[j].data() >= at, "subvalues are in source order and do not overlap"); at = v[j].data() + v[j].length(); } }
  at = got->name.data() + got->name.length();
  for (size_t i = 0; i < got->namedArguments.size(); i++) {
    auto& a = got->namedArguments[i]; sym_reach("named"); CHECKM(inside(a.key), "a key is part of the text"); CHECKM(a.key.data() >= at, "keys are in source order and do not overlap"); at = a.key.data() + a.key.length();
    for (size_t j = 0; j < a.value.subvalues.size(); j++) { auto& v = a.value.subvalues[j]; CHECKM(inside(v), "a named subvalue is part of the text"); CHECKM(v.data() >= at, "named subvalues are in source order"); at = v.data() + v.length(); }
  }
}
// C04: the same through a registry: what a result or a command holds on to is the caller's text
extern "C" void check_views_execute() {
  Line line(sym_param("N", 4)); size_t n = line.n; char* copy = (char*)malloc(n ? n : 1); for (size_t i = 0; i < n; i++) copy[i] = line.p[i];
  auto inside = [&](StringView v) { return v.data() >= line.p && v.data() + v.length() <= line.p + n; };
  { Bindings b; int ran = 0; auto see = [&](Value const& v) { for (size_t i = 0; i < v.subvalues.size(); i++) CHECKM(inside(v.subvalues[i]), "a value's parts are parts of the caller's text"); };
    char name[2]; sym_bytes(name, 1, "name"); name[1] = 0;
    b[StringView{name, 1}] = coil::overloaded([&](Context c) { ran++; for (auto const& a : c.namedArgs()) { CHECKM(inside(a.key), "a key is part of the caller's text"); see(a.value); sym_reach("named"); } }, [&](Value v) { ran++; see(v); sym_reach("value"); }, [&](StringView s, Value v) { ran++; CHECKM(inside(s), "a view is part of the caller's text"); see(v); sym_reach("view"); });
    auto r = b.execute(line.view()); CHECKM(bytesEq(copy, line.p, n), "execution does not modify the text"); auto const& in = r.input;
    if (!in.name.empty()) { CHECKM(inside(in.name), "the echoed name is part of the text"); sym_reach("echoed"); }
    for (size_t i = 0; i < in.arguments.size(); i++) for (size_t j = 0; j < in.arguments[i].subvalues.size(); j++) CHECKM(inside(in.arguments[i].subvalues[j]), "an echoed argument is part of the text");
    for (size_t i = 0; i < in.namedArguments.size(); i++) { CHECKM(inside(in.namedArguments[i].key), "an echoed key is part of the text"); for (size_t j = 0; j < in.namedArguments[i].value.subvalues.size(); j++) CHECKM(inside(in.namedArguments[i].value.subvalues[j]), "an echoed named argument is part of the text"); }
    sym_observe(ran, "ran"); }
  free(copy);
}
// C04: only the bytes inside the range matter; the same range parsed with different neighbours gives the same pieces
extern "C" void check_views_context() {
  size_t n = sym_param("N", 3); char a[16], b[16]; sym_bytes(a, n, "text"); sym_bytes(a + n, 2, "after"); for (size_t i = 0; i < n; i++) b[i + 1] = a[i]; sym_bytes(b, 1, "before"); b[n + 1] = 0; b[n + 2] = '"';
  DefaultLexer lexer; auto x = lexer.parse(StringView{a, n}); auto y = lexer.parse(StringView{b + 1, n});
  CHECKM(x.hasValue() == y.hasValue(), "acceptance depends only on the text"); if (x.hasValue() != y.hasValue()) return;
  if (!x) { CHECKM(strEq(x.error(), y.error()), "the error depends only on the text"); sym_reach("rejected"); return; }
  sym_reach("parsed");
  auto same = [&](StringView p, StringView q) { return p.length() == q.length() && p.data() - a == q.data() - (b + 1); };
  if (!(x->name.empty() && x->arguments.empty())) CHECK(same(x->name, y->name));
  CHECK(x->arguments.size() == y->arguments.size() && x->namedArguments.size() == y->namedArguments.size());
  for (size_t i = 0; i < x->arguments.size() && i < y->arguments.size(); i++) { CHECK(x->arguments[i].subvalues.size() == y->arguments[i].subvalues.size()); for (size_t j = 0; j < x->arguments[i].subvalues.size() && j < y->arguments[i].subvalues.size(); j++) CHECK(same(x->arguments[i].subvalues[j], y->arguments[i].subvalues[j])); }
}

// C05: quoting
static void quoteFree(const char* p, size_t n) { for (size_t i = 0; i < n; i++) sym_assume(!isQuo(DEFAULT_DELIMS, p[i])); }
extern "C" void check_quote() {
  size_t n = sym_param("N", 4); char* text = (char*)malloc(n ? n : 1); sym_bytes(text, n, "text"); quoteFree(text, n);
  char q[2]; sym_bytes(q, 2, "quotes"); sym_assume(isQuo(DEFAULT_DELIMS, q[0])); sym_assume(isQuo(DEFAULT_DELIMS, q[1]));
  uint32_t form = sym_choice(7, "form"); Txt t; auto put = [&]() { t.ch(q[0]).add(text, n).ch(q[1]); };
  switch (form) {
    case 0: t.add("f "); put(); break;
    case 1: t.add("f"); put(); t.add("z"); break;
    case 2: put(); t.add(" z"); break;
    case 3: t.add("f k="); put(); break;
    case 4: t.add("f "); put(); t.add("=v"); break;
    case 5: t.add("f\t"); put(); put(); break;
    case 6: t.add(" f k = "); put(); t.add(" z"); break;
  }
  char* p = (char*)malloc(t.n); for (size_t i = 0; i < t.n; i++) p[i] = t.b[i];
  { DefaultLexer lexer; auto got = lexer.parse(StringView{p, t.n});
    CHECKM(got.hasValue(), "a quoted text is accepted");
    if (got) {
      sym_reach("quoted");
      auto is = [&](StringView v) { return v.length() == n && bytesEq(v.data(), text, n); };
      auto one = [&](Value const& v) { return v.subvalues.size() == 1 && is(v.subvalues[0]); };
      auto plain = [&](Value const& v, const char* s) { return v.subvalues.size() == 1 && svIs(v.subvalues[0], s); };
      size_t na = got->arguments.size(), nn = got->namedArguments.size();
      if (form == 2) CHECKM(is(got->name), "a quoted name arrives unchanged"); else CHECKM(svIs(got->name, "f"), "the name");
      switch (form) {
        case 0: CHECKM(na == 1 && nn == 0 && one(got->arguments[0]), "a quoted argument arrives unchanged"); break;
        case 1: CHECKM(na == 2 && nn == 0 && one(got->arguments[0]) && plain(got->arguments[1], "z"), "a quoted argument next to other text"); break;
        case 2: CHECKM(na == 1 && nn == 0 && plain(got->arguments[0], "z"), "arguments after a quoted name"); break;
        case 3: CHECKM(na == 0 && nn == 1 && svIs(got->namedArguments[0].key, "k") && one(got->namedArguments[0].value), "a quoted named value arrives unchanged"); break;
        case 4: CHECKM(na == 0 && nn == 1 && is(got->namedArguments[0].key) && plain(got->namedArguments[0].value, "v"), "a quoted key arrives unchanged"); break;
        case 5: CHECKM(na == 2 && nn == 0 && one(got->arguments[0]) && one(got->arguments[1]), "two quoted arguments"); break;
        case 6: CHECKM(na == 1 && nn == 1 && svIs(got->namedArguments[0].key, "k") && one(got->namedArguments[0].value) && plain(got->arguments[0], "z"), "a quoted named value among others"); break;
      }
    }
    observeParse(got, p); }
  free(p); free(text);
}
// C05: long quoted text (only the class of each byte is symbolic, through one symbolic byte per position)
extern "C" void check_quote_list() {
  size_t e = sym_param("E", 3); char el[8][4]; size_t len[8]; bool quoted[8]; Txt t("f ("); bool named = sym_choice(2, "named"); if (named) { t.n = 0; t.add("f k=("); }
  auto sep = [&]() { char c; sym_bytes(&c, 1, "sep"); sym_assume(isSep(DEFAULT_DELIMS, c)); t.ch(c); };
  for (uint32_t i = sym_choice(2, "lead"); i > 0; i--) sep();
  for (size_t i = 0; i < e; i++) {
    uint32_t kind = sym_choice(4, "kind"); quoted[i] = kind >= 2; len[i] = kind == 0 ? 1 : kind == 1 ? 2 : kind == 2 ? 0 : 2;
    sym_bytes(el[i], len[i], "el"); for (size_t j = 0; j < len[i]; j++) { sym_assume(!isQuo(DEFAULT_DELIMS, el[i][j]) & (cls(DEFAULT_DELIMS, el[i][j]) != C_GROUP)); if (!quoted[i]) sym_assume(!isSep(DEFAULT_DELIMS, el[i][j])); }
    if (quoted[i]) { char q; sym_bytes(&q, 1, "q"); sym_assume(isQuo(DEFAULT_DELIMS, q)); t.ch(q).add(el[i], len[i]).ch(q); } else t.add(el[i], len[i]);
    if (i + 1 < e) { sep(); if (sym_choice(2, "double")) sep(); } else if (sym_choice(2, "trail")) sep();
  }
  t.ch(')');
  char* p = (char*)malloc(t.n); for (size_t i = 0; i < t.n; i++) p[i] = t.b[i];
  { DefaultLexer lexer; auto got = lexer.parse(StringView{p, t.n}); CHECKM(got.hasValue(), "a list is accepted");
    if (got) {
      sym_reach("list"); CHECK(got->arguments.size() == (named ? 0u : 1u) && got->namedArguments.size() == (named ? 1u : 0u));
      if (got->arguments.size() + got->namedArguments.size() == 1) { Value const& v = got->arguments.size() ? got->arguments[0] : got->namedArguments[0].value;
        CHECKM(v.subvalues.size() == e, "the list has every element"); for (size_t i = 0; i < e && i < v.subvalues.size(); i++) CHECKM(v.subvalues[i].length() == len[i] && bytesEq(v.subvalues[i].data(), el[i], len[i]), "a list element arrives unchanged"); }
    }
    observeParse(got, p); }
  free(p);
}

// C06: caller-chosen delimiters; the texts naming them are gone once the parser is made
struct CustomLexer {
  coil::UniquePtr<DefaultLexer> lexer;
  CustomLexer(Delims const& d) { char* s[4]; const char* from[4] = {d.group, d.quote, d.sep, d.space}; size_t n[4] = {(size_t)d.ng, (size_t)d.nq, (size_t)d.ns, (size_t)d.nsp};
    for (int i = 0; i < 4; i++) { s[i] = (char*)malloc(n[i] ? n[i] : 1); for (size_t j = 0; j < n[i]; j++) s[i][j] = from[i][j]; }
    lexer = coil::makeUnique<DefaultLexer>(StringView{s[0], n[0]}, StringView{s[1], n[1]}, StringView{s[2], n[2]}, StringView{s[3], n[3]}); for (int i = 0; i < 4; i++) { for (size_t j = 0; j < n[i]; j++) s[i][j] = 'x'; free(s[i]); } }
};
extern "C" void check_custom() {
  size_t n = sym_param("N", 3);
  char g[2], q[2], sp[2], ws[2]; size_t ng = sym_param("G", 2), nq = sym_param("Q", 1), ns = sym_param("S", 1), nw = sym_param("W", 1);
  sym_bytes(g, ng, "group"); sym_bytes(q, nq, "quote"); sym_bytes(sp, ns, "sep"); sym_bytes(ws, nw, "space");
  // the four sets are disjoint and leave '=' alone
  int ok = 1; auto apart = [&](const char* a, size_t na, const char* b, size_t nb) { for (size_t i = 0; i < na; i++) for (size_t j = 0; j < nb; j++) ok &= a[i] != b[j]; };
  apart(g, ng, q, nq); apart(g, ng, sp, ns); apart(g, ng, ws, nw); apart(q, nq, sp, ns); apart(q, nq, ws, nw); apart(sp, ns, ws, nw);
  const char eq = '='; apart(g, ng, &eq, 1); apart(q, nq, &eq, 1); apart(sp, ns, &eq, 1); apart(ws, nw, &eq, 1); sym_assume(ok);
  Delims d = {g, ng, q, nq, sp, ns, ws, nw};
  Line line(n);
  CustomLexer c(d); checkAgainst(*c.lexer, d, line, false);
}
// particular configurations, symbolic text
extern "C" void check_custom_fixed() {
  static const Delims C[] = { {"[]", 2, "`", 1, ";", 1, " ", 1}, {"{}<>", 4, "\xab\xbb", 2, "\xff:", 2, "\t", 1}, {"", 0, "\"", 1, ",", 1, " ", 1}, {"()", 2, "", 0, ",", 1, " ", 1}, {"()", 2, "'", 1, "", 0, " ", 1}, {"()", 2, "'", 1, ",", 1, "", 0}, {"\0/", 2, "\x80", 1, "\xfe", 1, "\x7f", 1} };
  Delims const& d = C[sym_choice(7, "config")];
  Line line(sym_param("N", 4));
  CustomLexer c(d); checkAgainst(*c.lexer, d, line, true);
}
// large sets; any byte at any of the telling places of a line
extern "C" void check_custom_many() {
  static char g[64], q[64], sp[64], ws[64]; size_t ng = 0, nq = 0, ns = 0, nw = 0; uint32_t c = sym_choice(4, "sets"); // which bytes belong to which set
  for (int i = 0; i < 256; i++) { if (i == '=' || (i >= 'a' && i <= 'f')) continue; int k = c == 0 ? i % 6 : c == 1 ? i / 43 : c == 2 ? (i * 7) % 5 : (i >= 128 ? i % 4 : 5); if (k == 0 && ng < 60) g[ng++] = (char)i; else if (k == 1 && nq < 60) q[nq++] = (char)i; else if (k == 2 && ns < 60) sp[ns++] = (char)i; else if (k == 3 && nw < 60) ws[nw++] = (char)i; }
  Delims d = {g, ng, q, nq, sp, ns, ws, nw}; char x[1]; sym_bytes(x, 1, "byte"); char G = g[ng - 1], Q = q[nq - 1], S = sp[ns - 1], W = ws[nw - 1]; char t[16]; size_t n = 0; auto put = [&](auto... l) { ((t[n++] = l), ...); }; char X = x[0];
  switch (sym_choice(7, "place")) { case 0: put('f', X, 'a'); break; case 1: put('f', W, G, 'a', X, 'b', G); break; case 2: put('f', W, X, 'a', X); break; case 3: put('f', W, Q, 'a', X, 'b', Q); break; case 4: put('f', W, 'a', S, X, 'b', X, S, 'c'); break; case 5: put(X, 'f', W, 'k', X, '=', X, 'v'); break; default: put('f', W, G, Q, 'a', X, 'b', Q, X, G); }
  Line line(n); for (size_t i = 0; i < n; i++) line.p[i] = t[i]; CustomLexer l(d); checkAgainst(*l.lexer, d, line, true); sym_reach("many");
}
// a registry uses the parser it was given, for every later line
static coil::Vector<coil::String>* gSeen;
struct OtherLexer : coil::Lexer {
  int id; OtherLexer(int id) : id(id) {}
  coil::Expected<ExecutionInput, String> parse(StringView s) const override {
    gSeen->pushBack(String{s});
    if (s.length() && s[0] == '!') return coil::makeUnexpected(String{"no"});
    ExecutionInput in; in.name = id ? "b" : "a"; in.arguments.pushBack(Value{s}); return in;
  }
};
extern "C" void check_set_lexer() {
  Line line(sym_param("N", 2)); coil::Vector<String> seen; gSeen = &seen;
  { Bindings b; int calls = 0; size_t len = 0; char got[8]; int which = 0;
    b["a"] = [&](StringView v) { calls++; which = 1; len = v.length(); for (size_t i = 0; i < v.length() && i < 8; i++) got[i] = v[i]; };
    b["b"] = [&](StringView v) { calls++; which = 2; len = v.length(); for (size_t i = 0; i < v.length() && i < 8; i++) got[i] = v[i]; };
    bool replaced = sym_choice(2, "replaced"); b.setLexer(coil::makeUnique<OtherLexer>(0)); if (replaced) b.setLexer(coil::makeUnique<OtherLexer>(1));
    Bindings moved; moved["z"] = [] {}; Bindings* used = &b; coil::UniquePtr<Bindings> made;
    switch (sym_choice(4, "moved")) { case 1: { Bindings c; c["z"] = [] {}; c = coil::move(b); b = coil::move(c); break; } case 2: moved = coil::move(b); used = &moved; break; case 3: made = coil::makeUnique<Bindings>(coil::move(b)); used = made.get(); break; }
    for (int k = 0; k < 2; k++) {
      auto r = used->execute(line.view());
      CHECKM(seen.size() == (size_t)k + 1 && strEq(seen[k], line.view()), "the registry's own parser sees the whole line");
      if (line.n && line.p[0] == '!') { CHECKM(calls == 0 && r.errors.size() == 1 && strIs(r.errors[0], "Syntax error: no"), "the parser's rejection is what is reported"); sym_reach("rejected"); }
      else { CHECKM(r.errors.size() == 0 && calls == k + 1 && which == (replaced ? 2 : 1) && len == line.n && bytesEq(got, line.p, line.n), "the parser's result is what is executed"); sym_reach("executed"); }
    } }
  gSeen = nullptr;
}
