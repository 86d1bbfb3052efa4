// C25 C29: strings, views and hashes
#include "values.h"
#include "coil/detail/UnorderedMap.h"
static const size_t CAP = 2600;
struct Model { char b[CAP]; size_t n = 0; void add(const char* s, size_t k) { for (size_t i = 0; i < k; i++) b[n + i] = s[i]; n += k; } void set(const char* s, size_t k) { for (size_t i = 0; i < k; i++) b[i] = s[i]; n = k; } StringView view() const { return StringView{b, n}; } size_t clen() const { size_t i = 0; while (i < n && b[i]) i++; return i; } };
static void same(String const& s, Model const& m, const char* what) {
  CHECKM(s.length() == m.n, "the length matches"); if (s.length() != m.n) return;
  CHECKM(bytesEq(s.cStr(), m.b, m.n), "exactly the bytes"); CHECKM(s.cStr()[m.n] == 0, "followed by a zero byte"); CHECKM(s.data() == s.cStr() && const_cast<String&>(s).data() == s.cStr() && s.begin() == s.cStr() && s.end() == s.cStr() + m.n, "one buffer"); CHECKM(s.empty() == (m.n == 0) && s.slength() == (int)m.n, "empty and slength agree with the length");
  StringView v = s; CHECKM(v.data() == s.cStr() && v.length() == m.n, "its view is the same range"); if (m.n) { CHECKM(&s.back() == s.cStr() + m.n - 1, "back is the last byte"); }
}
struct Pool { // every string's bytes are in storage of its own
  String a, b; Model ma, mb; String* s[2] = {&a, &b}; Model* m[2] = {&ma, &mb};
};
static const uint32_t OPS = 32;
// a position or a size from 0 to n: all of them for a short text, else those around the ends, the middle and the usual block sizes
static size_t pick(size_t n, const char* name) { if (n <= 12) return n ? sym_choice((uint32_t)n + 1, name) : 0; size_t const c[] = {0, 1, 2, 15, 16, 17, 23, 24, 31, 32, 64, n / 2, n - n / 3, n - 41, n - 17, n - 16, n - 2, n - 1, n}; size_t d[19], k = 0; for (size_t x : c) if (x <= n) { bool seen = false; for (size_t i = 0; i < k; i++) seen |= d[i] == x; if (!seen) d[k++] = x; } return d[sym_choice((uint32_t)k, name)]; }
static size_t text(char* t, size_t L, const char* name, bool z) { size_t n = sym_choice((uint32_t)L + 1, "len"); sym_bytes(t, n, name); if (!z) { int ok = 1; for (size_t i = 0; i < n; i++) ok &= t[i] != 0; sym_assume(ok); } t[n] = 0; return n; }
static void step(Pool& p, uint32_t w, uint32_t op, size_t L) {
  String &x = *p.s[w], &y = *p.s[1 - w]; Model &m = *p.m[w], &o = *p.m[1 - w]; char t[40]; size_t n;
  switch (op) {
    case 0: { n = text(t, L, "text", true); x = String{t, n}; m.set(t, n); break; }
    case 1: { n = text(t, L, "text", true); String z{StringView{t, n}}; x = z; m.set(t, n); Model k; k.set(t, n); same(z, k, "source"); if (n) { z.data()[0] ^= 1; same(x, m, "copies are independent"); } break; }
    case 2: { n = text(t, L, "text", false); x = t; m.set(t, n); break; }
    case 3: { char c = (char)sym_u8("char"); x += c; m.add(&c, 1); break; }
    case 4: { n = text(t, L, "text", false); x += (char const*)t; m.add(t, n); break; }
    case 5: x += y; m.add(o.b, o.n); break;
    case 6: x += StringView{y}; m.add(o.b, o.n); break;
    case 7: { n = text(t, L, "text", true); x.append(t, n); m.add(t, n); break; }
    case 8: { x += x; size_t k = m.n; Model c = m; m.add(c.b, k); break; }
    case 9: { size_t off = pick(m.n, "offset"); Model c = m; x += StringView{x}.substr(off, m.n - off); m.add(c.b + off, c.n - off); break; }
    case 10: { size_t k = pick(m.n, "count"); Model c = m; x.append(x.data(), k); m.add(c.b, k); break; }
    case 11: { int ok = 1; for (size_t i = 0; i < m.n; i++) ok &= m.b[i] != 0; sym_assume(ok); size_t off = pick(m.n, "offset"); Model c = m; x += x.cStr() + off; m.add(c.b + off, c.n - off); break; }
    case 12: if (m.n) { char c = m.b[m.n - 1]; x += x.back(); m.add(&c, 1); } break;
    case 13: { size_t k = sym_choice(6, "reserve"); x.reserve(k < 4 ? k * 5 : k == 4 ? 2 * m.n : 150); break; }
    case 14: { size_t k = pick(m.n, "shrink"); x.resize(k); m.n = k; break; }
    case 15: { size_t k = 1 + sym_choice((uint32_t)L + 1, "grow"); x.resize(m.n + k); sym_bytes(t, k, "fill"); CHECK(x.length() == m.n + k); for (size_t i = 0; i < k; i++) x.data()[m.n + i] = t[i]; m.add(t, k); break; }
    case 16: x = y; m = o; if (m.n) { y.data()[0] ^= 0x55; o.b[0] ^= 0x55; } break;
    case 17: x = coil::move(y); m = o; y = String{}; o.n = 0; break;
    case 18: { String const& self = x; x = self; break; }
    case 19: { String c{x}; same(c, m, "copy"); if (m.n) c.data()[m.n - 1] ^= 1; c += 'z'; break; }
    case 20: { String c{coil::move(x)}; same(c, m, "moved"); x = coil::move(c); break; }
    case 21: { char c = (char)sym_u8("char"); x = x + c; m.add(&c, 1); break; }
    case 22: { n = text(t, L, "text", false); x = x + (char const*)t; m.add(t, n); break; }
    case 23: x = x + y; m.add(o.b, o.n); break;
    case 24: { x = y + StringView{x}; Model c = o; c.add(m.b, m.n); m = c; break; }
    case 25: x = StringView{x}.length() ? String{StringView{x}.substr(1, m.n - 1)} : String{}; if (m.n) { Model c; c.set(m.b + 1, m.n - 1); m = c; } break;
    case 26: if (m.n) { char c = (char)sym_u8("char"); x.back() = c; m.b[m.n - 1] = c; x.data()[0] = c; m.b[0] = c; } break;
    case 27: { x = x + x; Model c = m; m.add(c.b, c.n); break; }
    case 28: { n = text(t, L, "text", true); String z{t, n}; x += coil::move(z); m.add(t, n); break; }
    case 29: { x.resize(0); m.n = 0; x.reserve(3); break; }
    case 30: { size_t off = pick(m.n, "offset"), k = pick(m.n - off, "count"); Model c = m; x.append(x.cStr() + off, k); m.add(c.b + off, k); break; }
    default: { String c = coil::move(x); String d; d = coil::move(c); x = coil::move(d); break; }
  }
}
static void checkPool(Pool& p) { // state and equality, for every kind of operand
  same(p.a, p.ma, "a"); same(p.b, p.mb, "b"); bool e = svEq(p.ma.view(), p.mb.view());
  CHECKM((p.a == p.b) == e && (p.b == p.a) == e, "strings are equal exactly when their bytes are"); CHECKM((p.a == StringView{p.mb.b, p.mb.n}) == e && (StringView{p.a} == StringView{p.b}) == e && (StringView{p.a} != StringView{p.b}) == !e, "against views as well"); CHECKM(p.a == p.a && p.a == StringView{p.a}, "and to themselves");
  p.mb.b[p.mb.n] = 0; bool z = svEq(p.ma.view(), StringView{p.mb.b, p.mb.clen()}); CHECKM((p.a == (char const*)p.mb.b) == z, "against C strings");
}
extern "C" void check_string_ops() {
  size_t K = sym_param("K", 2), L = sym_param("L", 2), pre = sym_param("PRE", 1); Pool p; checkPool(p);
  if (pre) { char t[8]; sym_bytes(t, 4, "initial"); p.a = String{t, 2}; p.ma.set(t, 2); p.b = String{t + 2, 2}; p.mb.set(t + 2, 2); }
  for (size_t k = 0; k < K; k++) { uint32_t op = sym_choice(OPS, "op"); step(p, k == 0 ? 0 : sym_choice(2, "which"), op, L); checkPool(p); }
  sym_observe_bytes(p.a.cStr(), p.a.length(), "a"); sym_observe_bytes(p.b.cStr(), p.b.length(), "b"); sym_reach("done"); if (p.ma.n > 4) sym_reach("longer"); if (p.ma.n == 0) sym_reach("emptied");
}
// the same operations on texts that are long from the start
extern "C" void check_string_big() {
  size_t K = sym_param("K", 1), N = sym_param("N", 64), M = sym_param("M", 20); Pool p; char t[8]; sym_bytes(t, 8, "pattern"); for (size_t i = 0; i < N; i++) p.ma.add(&t[i % 7], 1); for (size_t i = 0; i < M; i++) p.mb.add(&t[i % 5 + 1], 1); p.a = String{p.ma.b, p.ma.n}; p.b = String{p.mb.b, p.mb.n};
  for (size_t k = 0; k < K; k++) { uint32_t op = sym_choice(OPS, "op"); step(p, k == 0 ? 0 : sym_choice(2, "which"), op, 2); checkPool(p); } { size_t i = pick(p.ma.n, "changed"); if (i < p.ma.n) { String c{p.a}; c.data()[i] ^= 4; CHECKM(!(c == p.a) && !(p.a == StringView{c}) && StringView{c} != StringView{p.a}, "one byte makes a difference"); c.data()[i] ^= 4; CHECKM(c == p.a && StringView{c} == p.a, "and only the bytes do"); } }
  sym_reach("done"); if (p.ma.n > N) sym_reach("longer"); if (p.ma.n == 0) sym_reach("emptied");
}
// long strings: reallocation at every size
extern "C" void check_string_long() {
  size_t N = sym_param("N", 40); char pat[4]; sym_bytes(pat, 4, "pattern"); uint32_t how = sym_choice(6, "how"); String s; Model m; if (how == 3) s.reserve(N / 2);
  for (size_t i = 0; i < N; i++) { char c = pat[i % 4]; switch (how) { case 0: case 3: s += c; break; case 1: s.append(&c, 1); break; case 2: s += StringView{&c, 1}; break; case 4: s.resize(i + 1); s.data()[i] = c; break; default: { String t{&c, 1}; s = s + t; } } m.add(&c, 1); if (i % 8 == 7 || i + 1 == N) same(s, m, "grown"); }
  for (size_t i = N; i-- > 0;) { s.resize(i); m.n = i; if (i % 8 == 0) same(s, m, "shrunk"); } s += "x"; m.set("x", 1); same(s, m, "again"); sym_reach("long");
}
extern "C" void check_string_doubling() { size_t D = sym_param("D", 5); String s; Model m; char t[2]; sym_bytes(t, 2, "text"); s.append(t, 2); m.add(t, 2); for (size_t i = 0; i < D; i++) { uint32_t h = sym_choice(4, "how"); Model c = m; switch (h) { case 0: s += s; m.add(c.b, c.n); break; case 1: s += StringView{s}; m.add(c.b, c.n); break; case 2: s.append(s.cStr() + 1, c.n - 1); m.add(c.b + 1, c.n - 1); break; default: s.reserve(c.n * 2); s += s; m.add(c.b, c.n); } same(s, m, "doubled"); } sym_reach("long"); }
// conversions to and from the standard library
extern "C" void check_string_std() {
  char t[32]; size_t L = sym_param("L", 4); sym_bytes(t, L, "text"); StringView v{t, L}; std::string s = coil::toStdString(v); CHECK(s.size() == L && bytesEq(s.data(), t, L)); std::string_view sv = coil::toStdStringView(v); CHECK(sv.data() == t && sv.size() == L); String c = coil::fromStdString(s); CHECKM(strEq(c, v), "all bytes, zero bytes included"); StringView w = coil::fromStdStringView(sv); CHECK(w.data() == t && w.length() == L); sym_reach("done");
}

// ---------------------------------------------------------------- C29
extern "C" void check_views_basic() {
  size_t N = sym_param("N", 5); char* p = (char*)malloc(N); sym_bytes(p, N, "text"); 
  { StringView v{p, N}; CHECK(v.length() == N && v.slength() == (int)N && v.data() == p && v.begin() == p && v.end() == p + N && v.empty() == (N == 0)); size_t k = 0; for (char const& c : v) { CHECKM(&c == p + k, "iteration is the range"); k++; } CHECK(k == N); for (size_t i = 0; i < N; i++) CHECK(&v[i] == p + i);
    size_t off = sym_choice((uint32_t)N + 1, "offset"), len = sym_choice((uint32_t)(N - off) + 1, "length"); StringView s = v.substr(off, len); CHECKM(s.data() == p + off && s.length() == len && s.empty() == (len == 0), "a sub-range is exactly that range"); if (len) { size_t o2 = sym_choice((uint32_t)len, "offset2"); StringView z = s.substr(o2, len - o2); CHECK(z.data() == p + off + o2 && z.length() == len - o2); } }
  free(p); sym_reach("done");
}
// equality: three texts of any lengths up to N, in separate blocks
extern "C" void check_view_equality() {
  size_t N = sym_param("N", 3); char t[3][32]; size_t n[3]; for (int i = 0; i < 3; i++) { n[i] = sym_choice((uint32_t)N + 1, "len"); sym_bytes(t[i], n[i] + 1, "text"); } StringView v[3] = {{t[0], n[0]}, {t[1], n[1]}, {t[2], n[2]}};
  bool e01 = v[0] == v[1], e10 = v[1] == v[0], e12 = v[1] == v[2], e02 = v[0] == v[2];
  CHECKM(v[0] == v[0], "reflexive"); CHECKM(e01 == e10, "symmetric"); CHECKM(!(e01 && e12) || e02, "transitive"); CHECKM(e01 == svEq(v[0], v[1]), "exactly the bytes and the length"); CHECKM((v[0] != v[1]) == !e01, "!= is the opposite");
  String s[2] = {String{v[0]}, String{v[1]}}; CHECKM((s[0] == s[1]) == e01 && (s[0] == v[1]) == e01 && (StringView{s[0]} == v[1]) == e01 && (v[0] == StringView{s[1]}) == e01, "owning strings and views agree"); CHECKM((s[0] != s[1]) == !e01, "owning strings differ exactly when the views do");
  t[1][n[1]] = 0; StringView c{t[1]}; size_t k = 0; while (k < n[1] && t[1][k]) k++; CHECKM(c.data() == t[1] && c.length() == k, "a C string ends at its first zero byte"); CHECKM((s[0] == (char const*)t[1]) == svEq(v[0], c), "comparison with a C string"); if (e01) sym_reach("equal"); else sym_reach("different");
}
// equal texts have equal hashes, wherever and however they are stored
extern "C" void check_hash() {
  size_t N = sym_param("N", 4), A = sym_param("A", 3); char x[400], y[448]; sym_bytes(x, sizeof x < N ? sizeof x : N, "text"); sym_bytes(y, N + A + 1, "surroundings"); for (size_t i = 0; i < N; i++) y[A + i] = x[i];
  StringView a{x, N}, b{y + A, N}; size_t ha = coil::Hash<StringView>{}(a), hb = coil::Hash<StringView>{}(b); CHECKM(ha == hb, "the place does not matter"); String s{a}, r{s}; r.reserve(50); s += 'q'; s.resize(N); CHECKM(coil::Hash<String>{}(s) == ha && coil::Hash<String>{}(r) == ha, "views and owning strings hash alike"); CHECK(coil::Hash<StringView>{}(StringView{s}) == ha);
  char z[400]; sym_bytes(z, N, "other"); StringView o{z, N}; if (o == a) { sym_reach("equal"); CHECKM(coil::Hash<StringView>{}(o) == ha, "equal texts hash alike"); CHECK(coil::Hash<String>{}(String{o}) == ha); } else sym_reach("different"); sym_observe(ha, "hash");
}
// a name registered from one kind of text is found with any other
extern "C" void check_lookup_kinds() {
  size_t N = sym_param("N", 2); char t[16], q[16]; sym_bytes(t, N, "name"); size_t qn = N - sym_choice(2, "shorter"); sym_bytes(q, qn, "query"); int nz = 1; for (size_t i = 0; i < N; i++) nz &= t[i] != 0; for (size_t i = 0; i < qn; i++) nz &= q[i] != 0; sym_assume(nz); t[N] = 0; q[qn] = 0; bool hit = svEq(StringView{t, N}, StringView{q, qn});
  coil::UnorderedMap<String, int> m{sym_param("BUCKETS", 2)}; m.insertOrAssign(String{"other"}, 1); uint32_t k = sym_choice(3, "kind"); if (k == 0) m.insertOrAssign(String{t}, 5); else if (k == 1) m.insertOrAssign(String{StringView{t, N}}, 5); else m.insertOrAssign(String{"zz"} + "" , 6), m.insertOrAssign(String{t, N}, 5);
  int want = hit ? 5 : 0; auto get = [&](auto const& key) { auto it = m.find(key); return it == m.end() ? 0 : it->value(); }; bool special = svIs(StringView{q, qn}, "other") || (k == 2 && svIs(StringView{q, qn}, "zz") ); if (special && !hit) return;
  CHECKM(get(StringView{q, qn}) == want, "found with a view"); CHECKM(get(String{q}) == want, "found with a string"); CHECKM(get(String{StringView{q}}) == want, "found with a C string"); Bindings b; int ran = 0; b[t] = [&] { ran++; }; CHECKM((b.get(q) != nullptr) == hit && (b.get(StringView{q, qn}) != nullptr) == hit, "commands too"); String owned{q}; CHECK((b.get(owned) != nullptr) == hit); b.remove(String{q}); CHECKM((b.get(StringView{t, N}) == nullptr) == hit, "removed under any kind of text"); if (hit) sym_reach("hit"); else sym_reach("miss");
}
// every length up to N, one byte at a time, then sizes around the powers of two
extern "C" void check_string_every() {
  size_t N = sym_param("N", 1200); char pat[8]; sym_bytes(pat, 8, "pattern"); uint32_t how = sym_choice(4, "how"); String s; for (size_t i = 0; i < N; i++) { char c = pat[(i * 3 + i / 8) % 8]; switch (how) { case 0: s += c; break; case 1: s += StringView{&c, 1}; break; case 2: s.reserve(i + 1); s += c; break; default: s.resize(i + 1); s.data()[i] = c; } CHECKM(s.length() == i + 1 && s.cStr()[i + 1] == 0 && s.cStr()[i] == c, "one byte more"); }
  int ok = 1; for (size_t i = 0; i < N; i++) ok &= s.cStr()[i] == pat[(i * 3 + i / 8) % 8]; CHECKM(ok, "every byte stays"); sym_reach("done");
}
extern "C" void check_string_sizes() {
  static const size_t BASE[] = {256, 512, 1024, 2048, 3072, 4096, 5120, 8192, 16384, 32768, 65536, 131072}; size_t n = BASE[sym_choice(12, "base")] + sym_choice(5, "offset") - 2; uint32_t how = sym_choice(6, "how"); char* t = (char*)malloc(n + 1); char p[4]; sym_bytes(p, 4, "pattern"); for (size_t i = 0; i < n; i++) t[i] = p[i & 3] | 1; t[n] = 0; 
  { String s; switch (how) { case 0: s = String{StringView{t, n}}; break; case 1: s = String{t}; break; case 2: s = "ab"; s += StringView{t, n}; break; case 3: s.reserve(n); s += t; break; case 4: s = String{StringView{t, n / 2}}; s += StringView{t + n / 2, n - n / 2}; break; default: s.resize(n); memcpy(s.data(), t, n); } size_t k = how == 2 ? 2 : 0; CHECKM(s.length() == n + k && bytesEq(s.cStr() + k, t, n) && s.cStr()[n + k] == 0, "every byte, and the terminator"); String c = s; s += "z"; CHECKM(s.length() == n + k + 1 && s.cStr()[n + k] == 'z' && s.cStr()[n + k + 1] == 0 && c.length() == n + k && bytesEq(c.cStr() + k, t, n), "copies are apart"); c.resize(n / 2); CHECKM(c.length() == n / 2 && c.cStr()[n / 2] == 0, "cut"); CHECK((StringView{c} == StringView{s.cStr(), n / 2})); sym_reach("done"); }
  free(t);
}
