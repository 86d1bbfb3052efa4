// C26 C27 C28: vector, hash map, optional, expected, unique pointer
#include "values.h"
#include "coil/detail/UnorderedMap.h"
#include "coil/detail/UniquePtr.h"
#include "coil/detail/Optional.h"
// an element that owns one heap byte: a missing destruction is a leak, a double one a double free, and any use
// of a dead or never constructed element is an invalid access
struct Elem {
  static int live, copies; uchar* p; Elem* self;
  Elem() : p(make(0xEE)), self(this) { live++; }
  explicit Elem(uchar v) : p(make(v)), self(this) { live++; }
  Elem(Elem const& o) : p(make(o.get())), self(this) { live++; copies++; }
  Elem(Elem&& o) noexcept : p(o.p), self(this) { o.check(); o.p = make(0xDD); live++; }
  Elem& operator=(Elem const& o) { check(); uchar v = o.get(); *p = v; copies++; return *this; }
  Elem& operator=(Elem&& o) noexcept { check(); o.check(); uchar v = *o.p; if (&o != this) *o.p = 0xDD; *p = v; return *this; }
  ~Elem() { check(); self = nullptr; free(p); live--; }
  static uchar* make(uchar v) { uchar* q = (uchar*)malloc(1); *q = v; return q; }
  void check() const { CHECKM(self == this, "only live objects are used"); }
  uchar get() const { check(); return *p; }
  bool operator==(Elem const& o) const { return get() == o.get(); } bool operator!=(Elem const& o) const { return get() != o.get(); }
};
int Elem::live, Elem::copies;
static uchar val(Elem const& e) { return e.get(); } static uchar val(uchar const& e) { return e; } static uchar val(String const& s) { return (uchar)s.cStr()[0]; }
template<class T> static T mk(uchar v); template<> Elem mk<Elem>(uchar v) { return Elem{v}; } template<> uchar mk<uchar>(uchar v) { return v; } template<> String mk<String>(uchar v) { char t[3] = {(char)v, 'x', (char)v}; return v ? String{t, 3} : String{}; }
template<class T> static uchar zero(); template<> uchar zero<Elem>() { return 0xEE; } template<> uchar zero<uchar>() { return 0; } template<> uchar zero<String>() { return 0; } // what a default constructed element is
struct Ref8 { uchar v[520]; size_t n = 0; void push(uchar x) { v[n++] = x; } };
template<class T> static void same(coil::Vector<T> const& v, Ref8 const& m) {
  CHECKM(v.size() == m.n, "the size matches"); if (v.size() != m.n) return; CHECK(v.empty() == (m.n == 0) && v.capacity() >= v.size()); int ok = 1; for (size_t i = 0; i < m.n; i++) ok &= val(v[i]) == m.v[i]; CHECKM(ok, "exactly the elements in order");
  size_t k = 0; int it = 1; for (T const& e : v) { if (k < m.n) it &= val(e) == m.v[k]; k++; } CHECKM(k == m.n && it, "iteration gives them in order"); CHECK(v.end() - v.begin() == (ptrdiff_t)m.n && v.data() == v.begin()); if (m.n) { CHECK(&v.front() == v.begin() && &v.back() == v.begin() + m.n - 1); }
}
static const uint32_t VOPS = 25;
// a position: any of a few, or around the ends, the middle and the usual block sizes of many
static size_t pick(size_t n, const char* name) { if (n <= 12) return sym_choice((uint32_t)n, name); size_t const c[] = {0, 1, 7, 8, 15, 16, 17, 18, 31, 32, 33, 64, n / 2, n - n / 3, n - 9, n - 2, n - 1}; size_t d[19], k = 0; for (size_t x : c) if (x < n) { bool seen = false; for (size_t i = 0; i < k; i++) seen |= d[i] == x; if (!seen) d[k++] = x; } return d[sym_choice((uint32_t)k, name)]; }
template<class T> static void vstep(coil::Vector<T>* (&s)[2], Ref8* (&m)[2], uint32_t w, uint32_t op) {
  coil::Vector<T> &v = *s[w], &o = *s[1 - w]; Ref8 &r = *m[w], &q = *m[1 - w];
  switch (op) {
    case 0: { uchar x = sym_u8("value"); v.pushBack(mk<T>(x)); r.push(x); break; }
    case 1: { uchar x = sym_u8("value"); T t = mk<T>(x); v.pushBack(t); r.push(x); CHECKM(val(t) == x, "the source is unchanged"); break; }
    case 2: { uchar x = sym_u8("value"); T t = mk<T>(x); v.pushBack(coil::move(t)); r.push(x); break; }
    case 3: if (r.n) { size_t i = pick(r.n, "index"); v.pushBack(v[i]); r.push(r.v[i]); } break;
    case 4: if (r.n) { v.pushBack(v.front()); r.push(r.v[0]); v.pushBack(v.back()); r.push(r.v[r.n - 1]); } break;
    case 5: if (r.n) { v.popBack(); r.n--; } break;
    case 6: { size_t n = r.n < 13 ? sym_choice(5, "size") : pick(r.n + 30, "size"); v.resize(n); while (r.n < n) r.push(zero<T>()); r.n = n; break; }
    case 7: { size_t n = sym_choice(4, "capacity") * 3; v.reserve(n); CHECKM(v.capacity() >= n, "room for what was asked"); break; }
    case 8: v.clear(); r.n = 0; break;
    case 9: v = o; r = q; break;
    case 10: { v = coil::move(o); r = q; o = coil::Vector<T>{}; q.n = 0; break; }
    case 11: { coil::Vector<T> c{v}; same(c, r); CHECKM(c == v && v == c, "a copy is equal"); if (r.n) { c.pushBack(c[0]); CHECKM(!(c == v), "and independent"); c.popBack(); c[0] = mk<T>((uchar)(val(c[0]) + 1)); CHECKM(!(c == v), "element by element"); } break; }
    case 12: { coil::Vector<T> c{coil::move(v)}; same(c, r); v = coil::move(c); break; }
    case 13: { coil::Vector<T> const& self = v; v = self; break; }
    case 14: { coil::Vector<T> c{v.begin(), v.end()}; same(c, r); if (r.n > 1) { coil::Vector<T> d{v.begin() + 1, v.end() - 1}; CHECK(d.size() == r.n - 2); } break; }
    case 15: if (r.n) { size_t i = pick(r.n, "index"); uchar x = sym_u8("value"); v[i] = mk<T>(x); r.v[i] = x; } break;
    case 16: if (r.n) { size_t i = pick(r.n, "index"); v.front() = v[i]; r.v[0] = r.v[i]; v.back() = v[0]; r.v[r.n - 1] = r.v[0]; } break;
    case 17: { coil::Vector<T> c{(size_t)3}; CHECKM(c.empty() && c.capacity() >= 3, "a capacity holds no elements"); for (size_t i = 0; i < r.n; i++) c.pushBack(v[i]); v = coil::move(c); break; }
    case 18: for (T& e : v) e = mk<T>(7); for (size_t i = 0; i < r.n; i++) r.v[i] = 7; break;
    case 19: { while (!v.empty()) v.popBack(); r.n = 0; uchar x = sym_u8("value"); v.pushBack(mk<T>(x)); r.push(x); break; }
    case 20: { coil::Vector<T> c; c = v; c = coil::move(c); c.clear(); break; }
    case 21: for (size_t i = 0; i < q.n && r.n < 450; i++) { v.pushBack(o[i]); r.push(q.v[i]); } break;
    case 22: { size_t n = r.n; for (size_t i = 0; i < n && r.n < 450; i++) { v.pushBack(v[i]); r.push(r.v[i]); } break; }
    case 24: if (r.n) { size_t i = pick(r.n, "index"); coil::Vector<T> c{v}; CHECK(c == v); c[i] = mk<T>((uchar)(r.v[i] ^ 1)); CHECKM(!(c == v) && !(v == c), "every element counts"); c[i] = mk<T>(r.v[i]); CHECK(c == v); } break;
    default: { coil::Vector<T> t = coil::move(v); coil::Vector<T> u; u = coil::move(t); v = coil::move(u); } break;
  }
}
template<class T> static void vectorCase() {
  size_t K = sym_param("K", 3), pre = sym_param("PRE", 2); Elem::live = 0;
  { coil::Vector<T> a, b; Ref8 ra, rb; coil::Vector<T>* s[2] = {&a, &b}; Ref8* m[2] = {&ra, &rb}; same(a, ra);
    for (size_t i = 0; i < pre; i++) { uchar x = sym_u8("initial"); if (pre > 8 && i % 19 != 3) sym_assume(x != 0); a.pushBack(mk<T>(x)); ra.push(x); if (i && (pre < 8 || i > pre / 2)) { b.pushBack(mk<T>(x)); rb.push(x); } }
    for (size_t k = 0; k < K; k++) { uint32_t op = sym_choice(VOPS, "op"); vstep<T>(s, m, k == 0 ? 0 : sym_choice(2, "which"), op); same(a, ra); same(b, rb); int e = ra.n == rb.n; for (size_t i = 0; i < ra.n && i < rb.n; i++) e &= ra.v[i] == rb.v[i]; CHECKM((a == b) == (bool)e && (b == a) == (bool)e, "vectors are equal exactly when their elements are"); { constexpr bool isElem = std::is_same<T, Elem>::value; if (isElem) CHECKM(Elem::live == (int)(ra.n + rb.n), "one live object per element"); } }
    if (ra.n > pre) sym_reach("grown"); if (ra.n == 0) sym_reach("empty"); for (size_t i = 0; i < a.size(); i++) sym_observe(val(a[i]), "a"); }
  CHECKM(Elem::live == 0, "every element is destroyed exactly once"); sym_reach("done");
}
extern "C" void check_vector() { switch (sym_param("X", 0)) { case 0: vectorCase<Elem>(); break; case 1: vectorCase<uchar>(); break; default: vectorCase<String>(); } }
extern "C" void check_vector_long() {
  size_t N = sym_param("N", 40); uchar pat[4]; sym_bytes(pat, 4, "pattern"); uint32_t how = sym_choice(3, "how"); Elem::live = 0; { coil::Vector<Elem> v; Ref8 m;
    for (size_t i = 0; i < N; i++) { if (how == 0) v.pushBack(Elem{pat[i % 4]}); else if (how == 1) { if (i == 0) v.pushBack(Elem{pat[0]}); else { v.pushBack(v[i / 2]); } } else { v.resize(i + 1); v[i] = Elem{pat[i % 4]}; } m.push(how == 1 ? (i ? m.v[i / 2] : pat[0]) : pat[i % 4]); } same(v, m); 
    for (size_t i = N; i-- > 0;) { if (i % 3) v.popBack(); else v.resize(i); m.n = i; if (i % 7 == 0) same(v, m); } }
  CHECK(Elem::live == 0); sym_reach("long");
}
// elements that can only be moved
extern "C" void check_vector_moveonly() {
  Elem::live = 0; { typedef coil::UniquePtr<Elem> P; coil::Vector<P> v; Ref8 m; size_t K = sym_param("K", 4); for (size_t k = 0; k < K; k++) switch (sym_choice(6, "op")) {
    case 0: case 1: { uchar x = sym_u8("value"); v.pushBack(P{new Elem{x}}); m.push(x); break; } case 2: if (m.n) { v.popBack(); m.n--; } break; case 3: v.reserve(m.n + 2); break; case 4: { coil::Vector<P> w{coil::move(v)}; v = coil::move(w); break; } default: if (m.n > 1) { P t{coil::move(v[0])}; v[0] = coil::move(v[1]); v[1] = coil::move(t); uchar z = m.v[0]; m.v[0] = m.v[1]; m.v[1] = z; } }
    CHECK(v.size() == m.n); for (size_t i = 0; i < m.n && i < v.size(); i++) CHECK(v[i] && v[i]->get() == m.v[i]); CHECKM(Elem::live == (int)m.n, "one object per element"); sym_reach("done"); }
  CHECKM(Elem::live == 0, "every object is deleted exactly once");
}

// ---------------------------------------------------------------- C27
static uint64_t gHash[8]; // the hash of each key: any values
struct Key { uchar id; Elem e; Key(uchar i) : id(i), e(i) {} bool operator==(Key const& o) const { return e == o.e; } bool operator!=(Key const& o) const { return !(e == o.e); } };
template<> struct coil::Hash<Key> { size_t operator()(Key const& k) { return gHash[k.id]; } };
static const int NKEYS = 4;
struct RefMap { bool has[NKEYS] = {}; uchar v[NKEYS] = {}; size_t n() const { size_t k = 0; for (bool h : has) k += h; return k; } };
typedef coil::UnorderedMap<Key, Elem> Map;
static void same(Map& m, RefMap const& r) {
  Map const& c = m; CHECKM(m.size() == r.n(), "the size matches"); int seen[NKEYS] = {}; size_t steps = 0;
  for (auto it = m.begin(); it != m.end(); ++it) { uchar id = it->key().id; CHECKM(it->key().e.get() == id, "keys are intact"); seen[id]++; CHECKM(r.has[id], "no key that is not there"); CHECKM(it->value().get() == r.v[id], "every key with its last value"); if (++steps > 20) break; }
  for (int i = 0; i < NKEYS; i++) CHECKM(seen[i] == (r.has[i] ? 1 : 0), "every key exactly once");
  steps = 0; for (auto const& kv : c) { CHECK(r.has[kv.key().id]); if (++steps > 20) break; } CHECK(steps == r.n());
  for (int i = 0; i < NKEYS; i++) { Key k{(uchar)i}; auto it = m.find(k); CHECKM((it != m.end()) == r.has[i], "found exactly when present"); if (it != m.end()) { CHECKM((*it).key() == k && it->value().get() == r.v[i], "with its last value"); } auto ci = c.find(k); CHECK((ci != c.end()) == r.has[i]); if (ci != c.end()) CHECK(ci->value().get() == r.v[i]); }
}
static const uint32_t MOPS = 10;
static void mstep(Map*(&m)[2], RefMap*(&r)[2], uint32_t w, uint32_t op, int nk) {
  Map &a = *m[w], &b = *m[1 - w]; RefMap &ra = *r[w], &rb = *r[1 - w];
  switch (op) {
    case 0: case 1: { uchar k = (uchar)sym_choice(nk, "key"), v = sym_u8("value"); auto it = a.insertOrAssign(Key{k}, Elem{v}); CHECKM(it->key().id == k && it->value().get() == v, "insertion gives the entry"); ra.has[k] = true; ra.v[k] = v; break; }
    case 2: { uchar k = (uchar)sym_choice(nk, "key"); Key key{k}; a.erase(key); ra.has[k] = false; break; }
    case 3: { uchar k = (uchar)sym_choice(nk, "key"), v = sym_u8("value"); auto it = a.find(Key{k}); if (it != a.end()) { it->value() = Elem{v}; ra.v[k] = v; } break; }
    case 4: a.clear(); ra = RefMap{}; break;
    case 5: a = b; ra = rb; break;
    case 6: { Map c{a}; same(c, ra); c.insertOrAssign(Key{0}, Elem{1}); c.erase(Key{1}); break; }
    case 7: { Map c{coil::move(a)}; same(c, ra); a = coil::move(c); break; }
    case 8: { a = coil::move(b); ra = rb; b = Map{}; rb = RefMap{}; break; }
    default: { Map const& self = a; a = self; break; }
  }
}
extern "C" void check_map() {
  static const float LOADS[] = {1.0f, 0.5f, 2.0f, 0.1f, 100.0f, 0.0f}; static const size_t BUCKETS[] = {1, 0, 2, 3, 7, 16, 19, 33, 100, 64}; static const uint64_t SOME[] = {5, 18, 24, 43, 0x8000000000000011ull, 99};
  size_t K = sym_param("K", 3), pre = sym_param("PRE", 2); int nk = (int)sym_param("KEYS", 3); size_t nb = sym_param("NB", 5), nl = sym_param("NL", 6); Elem::live = 0; for (int i = 0; i < NKEYS; i++) gHash[i] = 0; for (int i = 0; i < nk; i++) gHash[i] = sym_param("HASHBITS", 64) == 64 ? sym_u64("hash") : sym_param("HASHBITS", 64) == 8 ? sym_u8("hash") : SOME[sym_choice(6, "hash")];
  { size_t bu = BUCKETS[nb - 1 - sym_choice((uint32_t)sym_param("NBC", nb), "buckets")]; float lf = LOADS[sym_choice((uint32_t)nl, "load")]; Map a{bu, lf}, b{2, lf}; RefMap ra, rb; Map* m[2] = {&a, &b}; RefMap* r[2] = {&ra, &rb};
    for (size_t i = 0; i < pre; i++) { a.insertOrAssign(Key{(uchar)i}, Elem{(uchar)(i + 10)}); ra.has[i] = true; ra.v[i] = (uchar)(i + 10); } b.insertOrAssign(Key{1}, Elem{77}); rb.has[1] = true; rb.v[1] = 77; same(a, ra);
    for (size_t k = 0; k < K; k++) { uint32_t op = sym_choice(MOPS, "op"); mstep(m, r, k == 0 ? 0 : sym_choice(2, "which"), op, nk); same(a, ra); } same(b, rb); if (ra.n() > pre) sym_reach("grown"); if (ra.n() == 0) sym_reach("empty"); sym_observe(a.size(), "size"); for (auto const& kv : a) sym_observe(kv.value().get(), "value"); }
  CHECKM(Elem::live == 0, "every key and value is destroyed exactly once"); sym_reach("done");
}
// erasure at every place of every chain: N keys, removed in an order of the solver's choice
extern "C" void check_map_chains() {
  int n = NKEYS; for (int i = 0; i < n; i++) { gHash[i] = sym_u64("hash"); } size_t D = sym_param("D", 4); Elem::live = 0;
  { Map a{sym_param("B", 2), 100.0f}; RefMap r; for (int i = 0; i < n; i++) { a.insertOrAssign(Key{(uchar)i}, Elem{(uchar)(i * 3)}); r.has[i] = true; r.v[i] = (uchar)(i * 3); } same(a, r); for (size_t k = 0; k < D; k++) { uchar x = (uchar)sym_choice(n, "key"); if (r.has[x] || sym_choice(2, "absent")) { a.erase(Key{x}); r.has[x] = false; } else { uchar v = sym_u8("value"); a.insertOrAssign(Key{x}, Elem{v}); r.has[x] = true; r.v[x] = v; } same(a, r); } }
  CHECK(Elem::live == 0); sym_reach("done");
}
// many keys, growing through several rehashes
extern "C" void check_map_many() {
  size_t N = sym_param("N", 30); uint32_t l = sym_choice(3, "load"), h = sym_choice(3, "hashes"); uchar base = sym_u8("value"); coil::UnorderedMap<String, uchar> m{sym_param("B", 1), l == 0 ? 1.0f : l == 1 ? 0.3f : 5.0f}; String keys[256];
  for (size_t i = 0; i < N; i++) { Txt t(h == 0 ? "k" : h == 1 ? "" : "longer key "); t.num(i); if (h == 1) t.ch('!'); keys[i] = String{t.view()}; m.insertOrAssign(keys[i], (uchar)(base + i)); } CHECK(m.size() == N);
  for (size_t i = 0; i < N; i++) { auto it = m.find(StringView{keys[i]}); CHECKM(it != m.end() && it->value() == (uchar)(base + i), "found with its value"); } for (size_t i = 0; i < N; i += 2) m.erase(keys[i]); CHECK(m.size() == N - (N + 1) / 2); for (size_t i = 0; i < N; i++) { auto it = m.find(keys[i]); CHECKM((it != m.end()) == (i % 2 == 1), "removed exactly when erased"); if (it != m.end()) CHECK(it->value() == (uchar)(base + i)); }
  bool has[256]; for (size_t i = 0; i < N; i++) has[i] = i % 2; auto all = [&] { size_t n = 0; for (size_t i = 0; i < N; i++) { auto it = m.find(StringView{keys[i]}); n += has[i]; CHECKM((it != m.end()) == has[i], "there exactly when put and not taken out"); if (it != m.end()) CHECKM(it->value() == (uchar)(base + i) && StringView{it->key()} == StringView{keys[i]}, "with its own value"); } CHECK(m.size() == n); size_t k = 0; for (auto const& kv : m) { (void)kv; k++; } CHECK(k == n); };
  for (size_t i = N; i-- > 3;) if (has[i]) { m.erase(StringView{keys[i]}); has[i] = false; if (i % 8 == 1 || i < 8) all(); } for (size_t i = 0; i < N; i++) { size_t j = (i * 7) % N; if (N % 7 == 0) j = i; m.insertOrAssign(keys[j], (uchar)(base + j)); has[j] = true; if (i % 9 == 0) all(); } all(); for (size_t i = 0; i < N; i++) { m.erase(keys[i]); has[i] = false; if (i % 10 == 0 || i + 4 > N) all(); } sym_reach("done");
}

// ---------------------------------------------------------------- C28
typedef coil::Optional<Elem> Opt;
struct ROpt { bool has = false; uchar v = 0; bool operator==(ROpt const& o) const { return (has == o.has) & (!has | (v == o.v)); } };
static void same(Opt const& o, ROpt const& r) { CHECKM(o.hasValue() == r.has && (bool)o == r.has, "engaged exactly when it should be"); if (o.hasValue() && r.has) { CHECKM((*o).get() == r.v && o->get() == r.v, "with its value"); CHECKM(o == Elem{r.v} && !(o != Elem{r.v}), "equal to its value"); } else if (!o.hasValue()) CHECKM(!(o == Elem{1}) && o != Elem{1}, "an empty one equals no value"); }
extern "C" void check_optional_ops() {
  size_t K = sym_param("K", 3); Elem::live = 0; { Opt a, b; ROpt ra, rb; Opt* s[2] = {&a, &b}; ROpt* m[2] = {&ra, &rb}; same(a, ra);
    for (size_t k = 0; k < K; k++) { uint32_t op = sym_choice(13, "op"), w = k ? sym_choice(2, "which") : 0; Opt &x = *s[w], &y = *s[1 - w]; ROpt &r = *m[w], &q = *m[1 - w]; uchar v;
      switch (op) {
        case 0: v = sym_u8("value"); x = Opt{Elem{v}}; r = {true, v}; break; case 1: { v = sym_u8("value"); Elem e{v}; Opt t{e}; x = t; r = {true, v}; CHECKM(e.get() == v && (*t).get() == v, "sources of copies are unchanged"); break; } case 2: x = Opt{}; r = {}; break; case 3: { Opt e; x = e; r = {}; break; }
        case 4: x = y; r = q; break; case 5: { x = coil::move(y); r = q; y = Opt{}; q = {}; break; } case 6: { Opt t{x}; same(t, r); if (r.has) { *t = Elem{(uchar)(r.v + 1)}; CHECKM(t != x, "independent"); } break; } case 7: { Opt t{coil::move(x)}; same(t, r); x = coil::move(t); break; } case 8: { Opt const& self = x; x = self; break; }
        case 9: if (r.has) { v = sym_u8("value"); *x = Elem{v}; r.v = v; } break; case 10: if (r.has) { x = Opt{*x}; } break; case 11: v = sym_u8("value"); x = Elem{v}; r = {true, v}; break; default: { v = sym_u8("value"); Opt t{Elem{v}}; t = x; same(t, r); Opt u{Elem{v}}; u = Opt{x}; same(u, r); break; } }
      same(a, ra); same(b, rb); CHECKM((a == b) == (ra == rb) && (a != b) == !(ra == rb), "compare accordingly"); CHECKM(Elem::live == ra.has + rb.has, "one object per engaged optional"); } sym_reach(ra.has ? "engaged" : "empty"); }
  CHECKM(Elem::live == 0, "every object is destroyed exactly once");
}
struct Err { Elem e; explicit Err(uchar v) : e(v) {} bool operator==(Err const& o) const { return e == o.e; } bool operator!=(Err const& o) const { return !(e == o.e); } };
typedef coil::Expected<Elem, Err> Exp;
struct RExp { bool ok; uchar v; };
static void same(Exp const& x, RExp const& r) { CHECKM(x.hasValue() == r.ok && (bool)x == r.ok, "value or error as it should be"); if (x.hasValue() != r.ok) return; if (r.ok) { CHECKM((*x).get() == r.v && x->get() == r.v && x.value().get() == r.v, "with its value"); CHECK(x == Elem{r.v}); CHECK(!(x == coil::makeUnexpected(Err{r.v}))); } else { CHECKM(x.error().e.get() == r.v, "with its error"); CHECK(!(x == Elem{r.v})); CHECK(x == coil::makeUnexpected(Err{r.v})); } }
static Exp mkExp(bool ok, uchar v) { if (ok) return Elem{v}; return coil::makeUnexpected(Err{v}); }
extern "C" void check_expected_ops() {
  size_t K = sym_param("K", 3); Elem::live = 0; { RExp ra{(bool)sym_choice(2, "ok"), sym_u8("value")}, rb{(bool)sym_choice(2, "ok"), sym_u8("value")}; Exp a = mkExp(ra.ok, ra.v), b = mkExp(rb.ok, rb.v); Exp* s[2] = {&a, &b}; RExp* m[2] = {&ra, &rb}; same(a, ra);
    for (size_t k = 0; k < K; k++) { uint32_t op = sym_choice(11, "op"), w = k ? sym_choice(2, "which") : 0; Exp &x = *s[w], &y = *s[1 - w]; RExp &r = *m[w], &q = *m[1 - w]; uchar v;
      switch (op) {
        case 0: v = sym_u8("value"); x = Exp{Elem{v}}; r = {true, v}; break; case 1: v = sym_u8("value"); x = coil::makeUnexpected(Err{v}); r = {false, v}; break; case 2: { v = sym_u8("value"); Exp t = mkExp(false, v); x = t; r = {false, v}; same(t, r); break; } case 3: x = y; r = q; break; case 4: { x = coil::move(y); r = q; q = {true, 9}; y = mkExp(true, 9); break; }
        case 5: { Exp t{x}; same(t, r); if (r.ok) *t = Elem{(uchar)(r.v + 1)}; else t.error() = Err{(uchar)(r.v + 1)}; CHECKM(!(t == x), "copies are independent"); break; } case 6: { Exp t{coil::move(x)}; same(t, r); x = coil::move(t); break; } case 7: { Exp const& self = x; x = self; break; } case 8: v = sym_u8("value"); if (r.ok) x.value() = Elem{v}; else x.error() = Err{v}; r.v = v; break;
        case 9: if (r.ok) { Elem e = *coil::move(x); CHECKM(e.get() == r.v, "the value can be moved out"); x = mkExp(true, r.v); } else { Err e = coil::move(x).error(); CHECKM(e.e.get() == r.v, "the error can be moved out"); x = mkExp(false, r.v); } break; default: { v = sym_u8("value"); Exp t = mkExp(true, v), u = mkExp(false, v); t = x; u = Exp{x}; same(t, r); same(u, r); break; } }
      same(a, ra); same(b, rb); bool e = (ra.ok == rb.ok) & (ra.v == rb.v); CHECKM((a == b) == e && (b == a) == e, "compare accordingly"); CHECKM(Elem::live == 2, "exactly one object each"); } sym_reach(ra.ok ? "value" : "error"); }
  CHECKM(Elem::live == 0, "every object is destroyed exactly once");
}
struct BaseE { virtual ~BaseE() {} virtual uchar id() const = 0; }; struct DerE : BaseE { Elem e; DerE(uchar v) : e(v) {} uchar id() const override { return e.get(); } };
typedef coil::UniquePtr<BaseE> UP;
extern "C" void check_unique_ops() {
  size_t K = sym_param("K", 4); Elem::live = 0; { UP a, b; struct R { bool has = false; uchar v = 0; } ra, rb; UP* s[2] = {&a, &b}; R* m[2] = {&ra, &rb}; 
    for (size_t k = 0; k < K; k++) { uint32_t op = sym_choice(9, "op"), w = k ? sym_choice(2, "which") : 0; UP &x = *s[w], &y = *s[1 - w]; R &r = *m[w], &q = *m[1 - w]; uchar v; bool drop = false;
      switch (op) {
        case 0: v = sym_u8("value"); x = UP{new DerE{v}}; r = {true, v}; break; case 1: v = sym_u8("value"); x = coil::makeUnique<DerE>(v); r = {true, v}; break; case 2: x = UP{}; r = {}; break; case 3: { BaseE* p = y.get(); x = coil::move(y); CHECKM(x.get() == p, "the same object, handed over"); r = q; y = UP{}; q = {}; break; } case 4: { BaseE* p = x.get(); UP t{coil::move(x)}; CHECKM(t.get() == p && !x && x.get() == nullptr, "handed over"); x = coil::move(t); break; }
        case 5: { v = sym_u8("value"); coil::UniquePtr<DerE> d{new DerE{v}}; UP t = coil::move(d); CHECKM(!d && t, "handed over through a conversion"); x = coil::move(t); r = {true, v}; break; } case 6: { UP t{coil::move(x)}; r = {}; break; } case 7: if (r.has) { CHECK((*x).id() == r.v && x->id() == r.v); } break; default: { UP t{coil::move(x)}; x = coil::move(y); y = coil::move(t); R z = r; r = q; q = z; break; } }
      for (int i = 0; i < 2; i++) { CHECKM((bool)*s[i] == m[i]->has, "owns exactly when it should"); if (*s[i] && m[i]->has) CHECKM((*s[i])->id() == m[i]->v, "its own object"); } CHECKM(Elem::live == ra.has + rb.has, "deleted exactly once, not before"); } sym_reach("done"); if (ra.has) sym_reach("owning"); }
  CHECKM(Elem::live == 0, "every object is deleted exactly once");
}
// very many elements, very many keys
extern "C" void check_vector_huge() {
  size_t N = sym_param("N", 70000); uchar p[4]; sym_bytes(p, 4, "pattern"); uint32_t how = sym_choice(3, "how"); coil::Vector<uchar> v; if (how == 2) v.resize(N / 2); for (size_t i = v.size(); i < N; i++) { if (how == 1 && i % 1000 == 0) v.reserve(i + 7); v.pushBack(p[i & 3]); } CHECKM(v.size() == N && v.capacity() >= N, "as many as were added"); int ok = 1; for (size_t i = how == 2 ? N / 2 : 0; i < N; i++) ok &= v[i] == p[i & 3]; CHECKM(ok, "each in its place"); coil::Vector<uchar> w = v; CHECK(w.size() == N && w[N - 1] == p[(N - 1) & 3]); while (v.size() > 3) v.popBack(); CHECK(v.size() == 3 && w.size() == N); v = coil::move(w); CHECK(v.size() == N); sym_reach("done");
}
struct Num { uint64_t k; bool operator==(Num o) const { return k == o.k; } };
template<> struct coil::Hash<Num> { size_t operator()(Num const& n) { return (size_t)(n.k * 0x9E3779B1u >> 3); } };
extern "C" void check_map_huge() {
  size_t N = sym_param("N", 66000), far = N > 1000 ? N - 1000 : 0; uchar p[4]; sym_bytes(p, 4, "pattern"); coil::UnorderedMap<Num, uchar> m{sym_param("B", 1), (float)sym_param("LOAD", 1)}; for (size_t i = 0; i < N; i++) { auto it = m.insertOrAssign(Num{i}, p[i & 3]); CHECKM(it->key() == Num{i}, "put"); } CHECKM(m.size() == N, "as many as were added");
  auto all = [&](size_t step) { size_t n = step ? N - (N + step - 1) / step : N; for (size_t i = 0; i < N; i += i < far ? 101 : 1) { auto it = m.find(Num{i}); bool here = step == 0 || i % step != 0; CHECKM((it != m.end()) == here, "there exactly when put and not taken out"); if (here) CHECKM(it->key() == Num{i} && it->value() == p[i & 3], "with its own value"); } CHECK(m.size() == n); };
  all(0); for (size_t i = 0; i < N; i += 5) m.erase(Num{i}); all(5); CHECK(m.find(Num{N}) == m.end()); m.clear(); CHECK(m.size() == 0 && m.find(Num{1}) == m.end()); m.insertOrAssign(Num{1}, p[0]); CHECK(m.size() == 1); sym_reach("done");
}

// equality is the elements' own: parts an element does not compare are different or equal as the solver likes
template<size_t S> struct Loose { unsigned char b[S]; bool operator==(Loose const& o) const { return b[S / 2] == o.b[S / 2]; } bool operator!=(Loose const& o) const { return !(*this == o); } };
template<class T> struct Lax { T keep; T ignore; bool operator==(Lax const& o) const { return keep == o.keep; } bool operator!=(Lax const& o) const { return !(*this == o); } };
template<class T> static void equality(T const& a, T const& b, bool eq) { // two elements, equal or not
  using coil::Vector; using coil::Optional; using coil::Expected; CHECK((a == b) == eq);
  Vector<T> v, w; CHECKM(v == w, "two empty vectors are equal"); v.pushBack(a); CHECKM(!(v == w) && !(w == v), "not with different lengths"); w.pushBack(b); CHECKM((v == w) == eq && (w == v) == eq, "vectors are equal exactly when their elements are"); v.pushBack(a); w.pushBack(a); v.reserve(9); CHECKM((v == w) == (eq && a == a), "element by element"); v.pushBack(a); CHECKM(!(v == w), "not with different lengths");
  Optional<T> p, q; CHECK(p == q && !(p != q)); p = a; CHECKM(!(p == q) && p != q && !(q == p), "an engaged one is not equal to an empty one"); q = b; CHECKM((p == q) == eq && (p != q) == !eq && (p == b) == eq && (p != b) == !eq, "optionals are equal exactly when their values are"); q = Optional<T>{}; CHECKM(!(q == b) && q != b, "an empty one equals no value");
  Expected<T, String> x{a}; Expected<T, String> y{coil::makeUnexpected(String{"e"})}; CHECKM((x == b) == eq && !(y == b), "expecteds compare their values"); Expected<String, T> z{coil::makeUnexpected(a)}; CHECKM((z == coil::makeUnexpected(b)) == eq && !(z == String{"s"}), "and their errors");
}
template<size_t S> static void loose() { Loose<S> a, b; sym_bytes((char*)a.b, S, "bytes"); sym_bytes((char*)b.b, S, "bytes"); bool eq = a.b[S / 2] == b.b[S / 2]; equality(a, b, eq); sym_reach(eq ? "equal" : "different"); }
template<class T> static void lax() { T v[4]; sym_bytes((char*)v, sizeof v, "bytes"); Lax<T> a{v[0], v[1]}, b{v[2], v[3]}; bool eq = v[0] == v[2]; equality(a, b, eq); sym_reach(eq ? "equal" : "different"); }
extern "C" void check_equality() {
  switch (sym_choice(10, "type")) { case 0: loose<1>(); break; case 1: loose<2>(); break; case 2: loose<3>(); break; case 3: loose<4>(); break; case 4: loose<8>(); break; case 5: loose<16>(); break; case 6: loose<24>(); break; case 7: lax<uint32_t>(); break; case 8: lax<uint64_t>(); break; default: lax<unsigned short>(); }
}
template<class F> static void reals(F nan) { static const F L[] = {0, -(F)0, 1, -1, nan, -nan, (F)0.1}; uint32_t i = sym_choice(7, "a"), j = sym_choice(7, "b"); bool eq = L[i] == L[j]; CHECK(eq == ((i == j && i != 4 && i != 5) || (i < 2 && j < 2))); equality(L[i], L[j], eq); sym_reach(eq ? "equal" : "different"); }
extern "C" void check_equality_reals() { if (sym_choice(2, "type")) reals<double>(__builtin_nan("")); else reals<float>(__builtin_nanf("")); }
extern "C" void check_equality_text() { // strings that hold the same bytes at different places
  size_t n = sym_param("N", 2); char t[8], u[8]; sym_bytes(t, n, "text"); sym_bytes(u, n, "text"); bool eq = true; for (size_t i = 0; i < n; i++) eq &= t[i] == u[i]; equality(String{t, n}, String{u, n}, eq); equality(StringView{t, n}, StringView{u, n}, eq); coil::Vector<StringView> a, b; a.pushBack(StringView{t, n}); b.pushBack(StringView{u, n}); equality(Value{coil::move(a)}, Value{coil::move(b)}, eq); sym_reach(eq ? "equal" : "different");
}
