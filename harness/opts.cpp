// C33: the same cases run by the library built in different configurations, in one program
// second-copy: noassert optscopy
// second-copy: nocatch optscopy
// second-copy: alias optscopy
#define COPY standard
#include "optscopy.cpp"
#include "sym.h"
static int sameBytes(const char* a, const char* b, size_t n) { int r = 1; for (size_t i = 0; i < n; i++) r &= a[i] == b[i]; return r; }
static void same(Out const& a, Out const& b, bool types, const char* what) { CHECKM(a.n == b.n && a.n < sizeof a.b, what); if (a.n == b.n) CHECKM(sameBytes(a.b, b.b, a.n), what); if (types) CHECKM(a.nt == b.nt && sameBytes(a.types, b.types, a.nt), "type names are the same"); }
// K lines of N bytes each, run one after another, on every configuration.  With X=1 the alias build takes part: lines then name commands whose errors mention no integer type
extern "C" void check_opts_lines() {
  size_t K = sym_param("K", 1), N = sym_param("N", 4); const char* t[4]; size_t n[4]; for (size_t i = 0; i < K; i++) { char* p = (char*)malloc(N); sym_bytes(p, N, "line"); t[i] = p; n[i] = N; }
  { static Out a, b; opts_lines_standard(t, n, K, &a); opts_lines_noassert(t, n, K, &b); same(a, b, true, "assertions change no result"); static Out c; opts_lines_nocatch(t, n, K, &c); same(a, c, true, "the exception option changes no result when nothing is thrown"); sym_reach(a.b[0] ? "errors" : "fine"); sym_observe(a.n, "size"); }
  for (size_t i = 0; i < K; i++) free((void*)t[i]);
}
// one command with a symbolic argument (every command of the table)
extern "C" void check_opts_command() {
  static const char* const P[] = {"a ", "b ", "b 1 ", "v ", "w ", "x ", "p ", "l 1,", "o ", "n k=", "r ", "e ", "q 'v ", "q 'a "}; uint32_t c = (uint32_t)sym_param("C", 99); if (c > 13) c = sym_choice(14, "command"); size_t N = sym_param("N", 2), L = strlen(P[c]); bool q = P[c][0] == 'q'; char* p = (char*)malloc(L + N + q); memcpy(p, P[c], L); sym_bytes(p + L, N, "arg"); if (q) p[L + N] = '\''; const char* t[1] = {p}; size_t n[1] = {L + N + q};
  { static Out a, b, d; opts_lines_standard(t, n, 1, &a); opts_lines_noassert(t, n, 1, &b); same(a, b, true, "assertions change no result"); opts_lines_nocatch(t, n, 1, &d); same(a, d, true, "the exception option changes no result when nothing is thrown"); sym_reach(a.b[0] ? "errors" : "fine");
    bool plain = c == 4 || c == 10 || c == 11; if (plain || !a.b[0]) { static Out e; opts_lines_alias(t, n, 1, &e); same(a, e, false, "the alias option changes type names only"); } }
  free(p);
}
extern "C" void check_opts_names() {
  static Out a, b, c, d; opts_names_standard(&a); opts_names_noassert(&b); opts_names_nocatch(&c); opts_names_alias(&d); same(a, b, true, "assertions change no description"); same(a, c, true, "the exception option changes no description"); same(a, d, false, "the alias option changes type names only");
  static const char* const from[] = {"int", "unsigned char", "short", "vector<short>", "optional<unsigned int>", "long long", "long", "bool", "string", "void", "coil::Value", "unsigned int", "unsigned long"}; static const char* const to[] = {"int32", "uint8", "int16", "vector<int16>", "optional<uint32>", "long long", "int64", "bool", "string", "void", "coil::Value", "uint32", "uint64"};
  size_t i = 0, j = 0, k = 0; int ok = 1; while (i < a.nt && j < d.nt) { bool hit = false; for (size_t f = 0; f < sizeof from / sizeof *from && !hit; f++) if (!strcmp(a.types + i, from[f])) { hit = true; ok &= !strcmp(d.types + j, to[f]); } CHECKM(hit, "a known type name"); CHECKM(ok, "named by width"); i += strlen(a.types + i) + 1; j += strlen(d.types + j) + 1; k++; } CHECKM(i == a.nt && j == d.nt && k > 20, "one name each"); sym_reach("described");
}
extern "C" void check_opts_throw() {
  uint32_t kind = sym_choice(4, "kind"); size_t N = sym_param("N", 2); char* t = (char*)malloc(N); sym_bytes(t, N, "arg"); { static Out a, b, c, d; opts_throw_standard(kind, t, N, &a); opts_throw_noassert(kind, t, N, &b); opts_throw_nocatch(kind, t, N, &c); opts_throw_alias(kind, t, N, &d); same(a, b, true, "assertions change nothing about exceptions"); same(a, d, false, "aliases change nothing about exceptions");
    CHECKM(a.threw == 0 && b.threw == 0 && d.threw == 0, "thrown objects are reported"); CHECKM(c.threw == (kind == 2 ? 0 : kind == 1 ? 2 : 1) && (kind == 2 || c.caught == (int)N), "or reach the caller unchanged"); if (kind == 2) same(a, c, true, "the exception option changes no result when nothing is thrown"); CHECKM(a.after == b.after && a.after == c.after && a.after == d.after, "the registry remains usable alike"); sym_reach(c.threw ? "thrown" : "returned"); }
  free(t);
}
extern "C" void check_opts_conv() {
  uint32_t T = (uint32_t)sym_param("T", 5); size_t N = sym_param("N", 2); char* t = (char*)malloc(N ? N : 1); sym_bytes(t, N, "text"); static const char* const D[] = {"char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "bool", "string", "string", "string"}; static const char* const A[] = {"char", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "long long", "unsigned long long", "bool", "string", "string", "string"};
  { static Out a, b, c, d; opts_conv_standard(T, t, N, &a); opts_conv_alias(T, t, N, &b); opts_conv_noassert(T, t, N, &c); opts_conv_nocatch(T, t, N, &d); same(a, b, false, "the alias option changes the name only"); same(a, c, true, "assertions change no conversion"); same(a, d, true, "exceptions change no conversion"); CHECKM(!strcmp(a.types, D[T]) && !strcmp(b.types, A[T]), "the documented names"); sym_reach(a.b[0] == '?' ? "rejected" : "value"); CHECKM(a.b[0] != '!', "the type is named"); }
  free(t);
}
extern "C" void check_opts_history() {
  size_t K = sym_param("K", 2); unsigned char s[8], v[8]; for (size_t i = 0; i < K; i++) { uint32_t op = sym_choice(16, "op"); uint32_t m = op < 3 ? 4 : op < 5 ? 1 : op < 8 ? 5 : op == 10 ? 4 : op == 8 ? 2 : op == 13 ? 3 : 1; s[i] = (unsigned char)(op + 16 * (m > 1 ? sym_choice(m, "x") : 0)); v[i] = sym_u8("value"); }
  static Out a, b, c; opts_history_standard(s, K, v, &a); opts_history_noassert(s, K, v, &b); opts_history_nocatch(s, K, v, &c); same(a, b, true, "assertions change no history"); same(a, c, true, "exceptions change no history"); sym_reach("done");
}
