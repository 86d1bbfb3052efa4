// Native side of sym.h: runs a harness on a recorded counterexample or path model.
//   prog ENTRY[:K=V,..] CASEFILE     CASEFILE: one input per line, "<kind> <name> <hex little-endian bytes>"
// exit: 0 the assertions held, 42 an assertion failed, 43 the recorded inputs do not fit, 44 memory was leaked
#include "sym.h"
#include <dlfcn.h>
#include <malloc.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <map>
#include <new>
#include <string>
#include <vector>
#include <unistd.h>

#ifdef NO_FILL // valgrind tracks what was never written
#define FILL(p, n) (void)0
#else
#define FILL(p, n) memset(p, 0xA5, n)
#endif
static long gLive; static bool gQuiet;
struct In { std::string kind, name; std::vector<unsigned char> b; };
static std::vector<In>* gIn; static size_t gNext; static std::map<std::string, uint64_t>* gParam;
static void bail(int code, const char* what, const char* d) { fflush(stdout); fprintf(stderr, "%s: %s\n", what, d); fflush(stderr); _exit(code); }
static In* next(const char* name, size_t n) {
  if (gNext >= gIn->size()) bail(43, "REPLAY-MISMATCH", name);
  In* i = &(*gIn)[gNext++];
  if (i->name != name || (n && i->b.size() < n)) bail(43, "REPLAY-MISMATCH", name);
  return i;
}
static uint64_t num(const char* name) { In* i = next(name, 0); uint64_t v = 0; for (size_t k = 0; k < i->b.size() && k < 8; k++) v |= (uint64_t)i->b[k] << (8 * k); return v; }
extern "C" {
void* __real_malloc(size_t); void __real_free(void*); void* __real_realloc(void*, size_t); void* __real_calloc(size_t, size_t);
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); if (p) { gLive++; FILL(p, n); } return p; }
void __wrap_free(void* p) { if (p) gLive--; __real_free(p); }
void* __wrap_calloc(size_t a, size_t b) { void* p = __real_calloc(a, b); if (p) gLive++; return p; }
void* __wrap_realloc(void* p, size_t n) { if (!p) gLive++; return __real_realloc(p, n); }
void sym_bytes(void* p, size_t n, const char* name) { In* i = next(name, n); memcpy(p, i->b.data(), n); }
uint64_t sym_u64(const char* n) { return num(n); }
uint32_t sym_u32(const char* n) { return (uint32_t)num(n); }
uint8_t sym_u8(const char* n) { return (uint8_t)num(n); }
uint32_t sym_choice(uint32_t m, const char* n) { uint32_t v = (uint32_t)num(n); if (v >= m) bail(43, "REPLAY-MISMATCH", n); return v; }
void sym_assume(int c) { if (!c) bail(43, "ASSUMPTION-FALSE", ""); }
void sym_assert(int c, const char* msg) { if (!c) bail(42, "ASSERTION-FAILED", msg); }
void sym_reach(const char*) {}
void sym_observe_bytes(const void* p, size_t n, const char* name);
void sym_observe(uint64_t v, const char* name) { sym_observe_bytes(&v, 8, name); }
void sym_observe_bytes(const void* p, size_t n, const char* name) { if (gQuiet) return; printf("%s ", name); for (size_t i = 0; i < n; i++) printf("%02x", ((const unsigned char*)p)[i]); printf("\n"); }
uint64_t sym_param(const char* n, uint64_t d) { auto i = gParam->find(n); return i == gParam->end() ? d : i->second; }
int sym_native(void) { return 1; }
uint64_t sym_live(void) { return 0; }
int sym_is_concrete(const void*, size_t) { return 1; }
}
static void* alloc(size_t n) { void* p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); gLive++; FILL(p, n); return p; }
static void release(void* p) { if (p) gLive--; __real_free(p); }
void* operator new(size_t n) { return alloc(n); }
void* operator new[](size_t n) { return alloc(n); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return alloc(n); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return alloc(n); }
void operator delete(void* p, std::nothrow_t const&) noexcept { release(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { release(p); }
void operator delete(void* p) noexcept { release(p); }
void operator delete[](void* p) noexcept { release(p); }
void operator delete(void* p, size_t) noexcept { release(p); }
void operator delete[](void* p, size_t) noexcept { release(p); }

int main(int argc, char** argv) {
  if (argc < 3) return 2;
  gIn = new std::vector<In>; gParam = new std::map<std::string, uint64_t>;
  std::string e = argv[1]; size_t c = e.find(':');
  if (c != std::string::npos) {
    std::string p = e.substr(c + 1); e = e.substr(0, c);
    for (size_t i = 0; i < p.size();) { size_t x = p.find(',', i); if (x == std::string::npos) x = p.size(); std::string kv = p.substr(i, x - i); size_t q = kv.find('='); if (q != std::string::npos) (*gParam)[kv.substr(0, q)] = strtoull(kv.c_str() + q + 1, 0, 10); i = x + 1; }
  }
  FILE* f = fopen(argv[2], "r"); if (!f) return 2;
  static char kind[8], name[256], hex[1 << 20];
  char* line = nullptr; size_t cap = 0;
  while (getline(&line, &cap, f) > 0) { hex[0] = 0; if (sscanf(line, "%7s %255s %1048575s", kind, name, hex) < 2) continue; In i; i.kind = kind; i.name = name; for (size_t k = 0; hex[k] && hex[k + 1]; k += 2) { unsigned v; sscanf(hex + k, "%2x", &v); i.b.push_back((unsigned char)v); } gIn->push_back(i); }
  fclose(f);
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, e.c_str()); if (!fn) { fprintf(stderr, "no entry %s\n", e.c_str()); return 2; }
  printf("RUN\n"); fflush(stdout);
  fn(); fflush(stdout);
  // a second run on the same inputs: what it leaves allocated is leaked (one-time allocations happened in the first)
  gQuiet = true; gNext = 0; long before = gLive; fn();
  if (gLive > before) bail(44, "LEAK", "allocations not released");
  fflush(stdout); _exit(0);
}
