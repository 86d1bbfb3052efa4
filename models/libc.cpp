// Models of the C and C++ runtime functions coil calls.  Executed symbolically
// together with coil; never linked into native replays.
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include "../harness/sym.h"
typedef uint64_t u64; typedef uint32_t u32; typedef unsigned char u8;
extern "C" {
void* malloc(size_t); void free(void*); void abort();
void sym_digits(u64 v, u32 n, char* buf);
void sym_uf(u32 tag, const void* key, u64 n, void* out, u64 outn);
u64 sym_exc_endcatch(void** out); void sym_exc_free(void*);
int sym_strto_concrete(u32 kind, const char* text, u64 n, void* out);  // returns errno
u32 sym_fmt_concrete(const char* fmt, u32 kind, const void* value, char* out, u32 cap);

static int model_errno;
int* __errno_location() { return &model_errno; }

size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { for (;; a++, b++) { u8 x = (u8)*a, y = (u8)*b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { u8 x = (u8)*a, y = (u8)*b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
int strcasecmp(const char* a, const char* b) { for (;; a++, b++) { u8 x = (u8)*a, y = (u8)*b; if (x >= 'A' && x <= 'Z') x += 32; if (y >= 'A' && y <= 'Z') y += 32; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncasecmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { u8 x = (u8)*a, y = (u8)*b; if (x >= 'A' && x <= 'Z') x += 32; if (y >= 'A' && y <= 'Z') y += 32; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* strrchr(const char* s, int c) { const char* r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
void* memchr(const void* p, int c, size_t n) { const u8* s = (const u8*)p; for (size_t i = 0; i < n; i++) if (s[i] == (u8)c) return (void*)(s + i); return nullptr; }
char* strstr(const char* a, const char* b) { size_t n = strlen(b); for (;; a++) { if (!strncmp(a, b, n)) return (char*)a; if (!*a) return nullptr; } }
char* strpbrk(const char* s, const char* set) { for (; *s; s++) if (strchr(set, *s)) return (char*)s; return nullptr; }
size_t strspn(const char* s, const char* set) { size_t n = 0; while (s[n] && strchr(set, s[n])) n++; return n; }
size_t strcspn(const char* s, const char* set) { size_t n = 0; while (s[n] && !strchr(set, s[n])) n++; return n; }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* r = (char*)malloc(n); for (size_t i = 0; i < n; i++) r[i] = s[i]; return r; }
void* mempcpy(void* d, const void* s, size_t n) { for (size_t i = 0; i < n; i++) ((char*)d)[i] = ((const char*)s)[i]; return (char*)d + n; }

// <ctype.h>, "C" locale; arguments outside unsigned char / EOF are undefined behaviour in C, glibc tolerates -128..-1
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isprint(int c) { return c >= 32 && c < 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int isblank(int c) { return c == ' ' || c == '\t'; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }

// exact strtol family, base 10 (other bases are refused)
static u64 parseInt(const char* s, char** end, int base, bool sgn) {
  if (base < 0 || base == 1 || base > 36) { model_errno = 22; if (end) *end = (char*)s; return 0; }
  const char* p = s; while (isspace((u8)*p)) p++;
  bool neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
  if (base == 0) { if (p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((u8)p[2])) { base = 16; p += 2; } else base = p[0] == '0' ? 8 : 10; }
  else if (base == 16 && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((u8)p[2])) p += 2;
  u64 acc = 0; bool ovf = false; const char* d = p; 
  for (;; p++) {
    u8 c = (u8)*p; u32 v;
    if (base > 10) { if (c >= '0' && c <= '9') v = c - '0'; else if (c >= 'a' && c < 'a' + base - 10) v = c - 'a' + 10; else if (c >= 'A' && c < 'A' + base - 10) v = c - 'A' + 10; else break; }
    else { if (c < '0' || c >= '0' + base) break; v = c - '0'; }
    if (p - d >= (base > 16 ? 12 : 15)) { if (ovf || acc > (~0ull - v) / (u32)base) { ovf = true; continue; } } // 15 digits cannot overflow in any base <= 16
    acc = acc * (u32)base + v;
  }
  if (end) *end = (char*)(p == d ? s : p);
  if (p == d) return 0;
  if (sgn) {
    if (ovf || acc > (neg ? 1ull << 63 : (1ull << 63) - 1)) { model_errno = 34; return neg ? 1ull << 63 : (1ull << 63) - 1; }
  } else if (ovf) { model_errno = 34; return ~0ull; }
  return neg ? 0 - acc : acc;
}
long strtol(const char* s, char** e, int b) { return (long)parseInt(s, e, b, true); }
long long strtoll(const char* s, char** e, int b) { return (long long)parseInt(s, e, b, true); }
unsigned long strtoul(const char* s, char** e, int b) { return parseInt(s, e, b, false); }
unsigned long long strtoull(const char* s, char** e, int b) { return parseInt(s, e, b, false); }
long __isoc23_strtol(const char* s, char** e, int b) { return (long)parseInt(s, e, b, true); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return (long long)parseInt(s, e, b, true); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return parseInt(s, e, b, false); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return parseInt(s, e, b, false); }
int atoi(const char* s) { return (int)parseInt(s, nullptr, 10, true); }
long atol(const char* s) { return (long)parseInt(s, nullptr, 10, true); }

// strtod family: which prefix is consumed is exact; the value is exact for concrete text and otherwise an
// uninterpreted function of (function, consumed text), range errors possible only with a long exponent or mantissa.
static bool ciEq(const char* p, const char* w, size_t n) { for (size_t i = 0; i < n; i++) if (tolower((u8)p[i]) != w[i]) return false; return true; }
static const char* floatEnd(const char* p, bool* mayRange) {
  *mayRange = false;
  if (*p == '-' || *p == '+') p++;
  if (tolower((u8)*p) == 'i') { if (ciEq(p, "inf", 3)) { if (ciEq(p + 3, "inity", 5)) return p + 8; return p + 3; } return nullptr; }
  if (tolower((u8)*p) == 'n') { if (!ciEq(p, "nan", 3)) return nullptr; p += 3; if (*p == '(') { const char* q = p + 1; while (isalnum((u8)*q) || *q == '_') q++; if (*q == ')') return q + 1; } return p; }
  bool hex = false;
  if (p[0] == '0' && tolower((u8)p[1]) == 'x') { const char* q = p + 2; if (isxdigit((u8)*q) || (*q == '.' && isxdigit((u8)q[1]))) { hex = true; p = q; } }
  size_t dig = 0;
  while (hex ? isxdigit((u8)*p) : isdigit((u8)*p)) { p++; dig++; }
  if (*p == '.') { const char* q = p + 1; size_t f = 0; while (hex ? isxdigit((u8)*q) : isdigit((u8)*q)) { q++; f++; } if (dig + f) { p = q; dig += f; } }
  if (!dig) return nullptr;
  if (dig > 30) *mayRange = true;
  if (tolower((u8)*p) == (hex ? 'p' : 'e')) {
    const char* q = p + 1; if (*q == '-' || *q == '+') q++;
    if (isdigit((u8)*q)) { size_t n = 0; while (isdigit((u8)*q)) { q++; n++; } if (n >= 2) *mayRange = true; p = q; }
  }
  return p;
}
static void strtof_any(u32 kind, const char* s, char** end, void* out, size_t outn) {
  const char* p = s; while (isspace((u8)*p)) p++;
  bool range; const char* e = floatEnd(p, &range);
  if (end) *end = (char*)(e ? e : s);
  for (size_t i = 0; i < outn; i++) ((char*)out)[i] = 0;
  if (!e) return;
  size_t n = size_t(e - p);
  if (sym_is_concrete(p, n)) { int err = sym_strto_concrete(kind, p, n, out); if (err) model_errno = err; return; }
  u8 buf[17]; sym_uf(kind, p, n, buf, outn + 1);
  for (size_t i = 0; i < outn; i++) ((u8*)out)[i] = buf[i];
  if (range && (buf[outn] & 1)) model_errno = 34;
}
float strtof(const char* s, char** e) { float v; strtof_any(100, s, e, &v, 4); return v; }
double strtod(const char* s, char** e) { double v; strtof_any(101, s, e, &v, 8); return v; }
long double strtold(const char* s, char** e) { long double v; char b[10]; strtof_any(102, s, e, b, 10); char* q = (char*)&v; for (int i = 0; i < 10; i++) q[i] = b[i]; return v; }

// printf family: the conversions coil can use
struct Out { char* p; size_t cap, n; };
static void put(Out* o, char c) { if (o->n + 1 < o->cap) o->p[o->n] = c; o->n++; }
static void pad(Out* o, int n, char c) { for (; n > 0; n--) put(o, c); }
static u32 numDigits(u64 v) { u32 n = 1; u64 p = 10; while (n < 20 && v >= p) { n++; if (n == 20) break; p *= 10; } return n; }
int vsnprintf(char* buf, size_t cap, const char* f, va_list ap) {
  Out o{buf, cap, 0};
  for (; *f; f++) {
    if (*f != '%') { put(&o, *f); continue; }
    const char* spec = f; f++;
    bool left = false, zero = false, plus = false, space = false, alt = false;
    for (;; f++) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true; else if (*f == ' ') space = true; else if (*f == '#') alt = true; else break; }
    int width = 0, prec = -1;
    if (*f == '*') { width = va_arg(ap, int); f++; if (width < 0) { left = true; width = -width; } } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    int l = 0; bool ld = false;
    for (;; f++) { if (*f == 'l') l++; else if (*f == 'z' || *f == 'j' || *f == 't') l = 2; else if (*f == 'h') l--; else if (*f == 'L') ld = true; else break; }
    char c = *f; char tmp[512]; char sign = 0; u32 n = 0; const char* body = tmp;
    switch (c) {
      case '%': put(&o, '%'); continue;
      case 'c': { tmp[0] = (char)va_arg(ap, int); n = 1; zero = false; break; }
      case 's': {
        const char* s = va_arg(ap, const char*); if (!s) s = "(null)";
        body = s; if (prec >= 0) { while (n < (u32)prec && s[n]) n++; } else while (s[n]) n++;
        zero = false; break; }
      case 'd': case 'i': {
        int64_t v; if (l >= 1) v = va_arg(ap, long); else { int t = va_arg(ap, int); v = l == -1 ? (short)t : l == -2 ? (signed char)t : t; }
        u64 m = v < 0 ? 0 - (u64)v : (u64)v; if (v < 0) sign = '-'; else if (plus) sign = '+'; else if (space) sign = ' ';
        n = numDigits(m); sym_digits(m, n, tmp); break; }
      case 'u': {
        u64 v; if (l >= 1) v = va_arg(ap, unsigned long); else { unsigned t = va_arg(ap, unsigned); v = l == -1 ? (unsigned short)t : l == -2 ? (u8)t : t; }
        n = numDigits(v); sym_digits(v, n, tmp); break; }
      case 'o': { u64 v = l >= 1 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); char r[24]; do { r[n++] = (char)('0' + (v & 7)); v >>= 3; } while (v); for (u32 i = 0; i < n; i++) tmp[i] = r[n - 1 - i]; break; }
      case 'x': case 'X': case 'p': {
        u64 v; if (c == 'p') v = (u64)va_arg(ap, void*); else v = l >= 1 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
        char r[20]; do { u32 d = v & 15; r[n++] = (char)(d < 10 ? '0' + d : (c == 'X' ? 'A' : 'a') + d - 10); v >>= 4; } while (v);
        if (c == 'p' || alt) { tmp[0] = '0'; tmp[1] = 'x'; for (u32 i = 0; i < n; i++) tmp[2 + i] = r[n - 1 - i]; n += 2; } else for (u32 i = 0; i < n; i++) tmp[i] = r[n - 1 - i];
        break; }
      case 'g': case 'f': case 'e': case 'G': case 'E': case 'F': case 'a': {
        char fmt[32]; u32 k = 0; for (const char* q = spec; q <= f && k < 31; q++) { if (*q == '*') abort(); fmt[k++] = *q; } fmt[k] = 0;
        char raw[16]; for (int i = 0; i < 16; i++) raw[i] = 0;
        u32 rn; if (ld) { long double v = va_arg(ap, long double); for (int i = 0; i < 10; i++) raw[i] = ((char*)&v)[i]; rn = 10; } else { double v = va_arg(ap, double); for (int i = 0; i < 8; i++) raw[i] = ((char*)&v)[i]; rn = 8; }
        if (sym_is_concrete(raw, rn)) { n = sym_fmt_concrete(fmt, ld ? 2 : 1, raw, tmp, sizeof tmp); }
        else { // an opaque, non-empty text determined by format and value
          char key[48]; for (u32 i = 0; i < 32; i++) key[i] = i < k ? fmt[i] : 0; for (u32 i = 0; i < 16; i++) key[32 + i] = raw[i];
          sym_uf(200, key, 48, tmp, 6); n = 6; for (u32 i = 0; i < 6; i++) sym_assume(tmp[i] >= '0' && tmp[i] <= '9');
        }
        left = left; width = 0; break; }
      default: abort();
    }
    if (prec >= 0 && (c == 'd' || c == 'i' || c == 'u' || c == 'x' || c == 'X')) { zero = false; } 
    int extra = (prec >= 0 && c != 's' && c != 'c' && c != 'g' && c != 'f' && c != 'e' && prec > (int)n) ? prec - (int)n : 0;
    if ((c == 'g' || c == 'f' || c == 'e')) extra = 0;
    int total = (int)n + (sign ? 1 : 0) + extra;
    if (!left && !zero) pad(&o, width - total, ' ');
    if (sign) put(&o, sign);
    if (!left && zero) pad(&o, width - total, '0');
    pad(&o, extra, '0');
    for (u32 i = 0; i < n; i++) put(&o, body[i]);
    if (left) pad(&o, width - total, ' ');
  }
  if (cap) buf[o.n < cap ? o.n : cap - 1] = 0;
  return (int)o.n;
}
int snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int vsprintf(char* b, const char* f, va_list ap) { return vsnprintf(b, ~0ull >> 1, f, ap); }
int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, ~0ull >> 1, f, ap); va_end(ap); return r; }
int vasprintf(char** out, const char* f, va_list ap) { va_list a2; va_copy(a2, ap); int n = vsnprintf(nullptr, 0, f, a2); va_end(a2); *out = (char*)malloc((size_t)n + 1); return vsnprintf(*out, (size_t)n + 1, f, ap); }

// less usual functions a change to the library might use
void* memrchr(const void* s, int c, size_t n) { for (const u8* p = (const u8*)s; n-- > 0;) if (p[n] == (u8)c) return (void*)(p + n); return nullptr; }
void* memmem(const void* h, size_t hn, const void* x, size_t xn) { for (size_t i = 0; i + xn <= hn; i++) { size_t k = 0; while (k < xn && ((const u8*)h)[i + k] == ((const u8*)x)[k]) k++; if (k == xn) return (u8*)h + i; } return nullptr; }
void* memccpy(void* d, const void* s, int c, size_t n) { for (size_t i = 0; i < n; i++) { ((u8*)d)[i] = ((const u8*)s)[i]; if (((const u8*)s)[i] == (u8)c) return (u8*)d + i + 1; } return nullptr; }
char* strchrnul(const char* s, int c) { while (*s && *s != (char)c) s++; return (char*)s; }
char* stpcpy(char* d, const char* s) { while ((*d = *s)) { d++; s++; } return d; }
size_t strlcpy(char* d, const char* s, size_t n) { size_t i = 0; for (; s[i]; i++) if (i + 1 < n) d[i] = s[i]; if (n) d[i < n ? i : n - 1] = 0; return i; }
char* strncat(char* d, const char* s, size_t n) { char* p = d; while (*p) p++; while (n-- && *s) *p++ = *s++; *p = 0; return d; }
char* strndup(const char* s, size_t n) { size_t k = strnlen(s, n); char* p = (char*)malloc(k + 1); for (size_t i = 0; i < k; i++) p[i] = s[i]; p[k] = 0; return p; }
char* strcasestr(const char* h, const char* x) { for (;; h++) { size_t k = 0; while (x[k] && tolower((u8)h[k]) == tolower((u8)x[k])) k++; if (!x[k]) return (char*)h; if (!*h) return nullptr; } }
char* strtok_r(char* s, const char* d, char** save) { if (!s) s = *save; s += strspn(s, d); if (!*s) { *save = s; return nullptr; } char* e = s + strcspn(s, d); if (*e) *e++ = 0; *save = e; return s; }
char* strtok(char* s, const char* d) { static char* save; return strtok_r(s, d, &save); }
char* strsep(char** sp, const char* d) { char* s = *sp; if (!s) return nullptr; char* e = s + strcspn(s, d); if (*e) { *e = 0; *sp = e + 1; } else *sp = nullptr; return s; }
int strcoll(const char* a, const char* b) { return strcmp(a, b); }
int abs(int v) { return v < 0 ? -v : v; }
long labs(long v) { return v < 0 ? -v : v; }
long long llabs(long long v) { return v < 0 ? -v : v; }
long strtoimax(const char* s, char** e, int b) { return (long)parseInt(s, e, b, true); }
unsigned long strtoumax(const char* s, char** e, int b) { return parseInt(s, e, b, false); }
long __isoc23_strtoimax(const char* s, char** e, int b) { return (long)parseInt(s, e, b, true); }
unsigned long __isoc23_strtoumax(const char* s, char** e, int b) { return parseInt(s, e, b, false); }
long long atoll(const char* s) { return (long long)parseInt(s, nullptr, 10, true); }
double atof(const char* s) { return strtod(s, nullptr); }
void* realloc(void*, size_t); 
void* reallocarray(void* p, size_t n, size_t k) { return realloc(p, n * k); }
void qsort(void* b, size_t n, size_t w, int (*cmp)(const void*, const void*)) { u8* a = (u8*)b; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(a + (j - 1) * w, a + j * w) > 0; j--) for (size_t k = 0; k < w; k++) { u8 t = a[j * w + k]; a[j * w + k] = a[(j - 1) * w + k]; a[(j - 1) * w + k] = t; } }
int pthread_mutex_lock(void*) { return 0; } int pthread_mutex_unlock(void*) { return 0; } int pthread_mutex_trylock(void*) { return 0; } int pthread_mutex_init(void*, const void*) { return 0; } int pthread_mutex_destroy(void*) { return 0; }
int pthread_rwlock_rdlock(void*) { return 0; } int pthread_rwlock_wrlock(void*) { return 0; } int pthread_rwlock_unlock(void*) { return 0; }
u64 pthread_self() { return 1; } int __cxa_thread_atexit(void (*)(void*), void*, void*) { return 0; } char __libc_single_threaded = 1;
static u64 bitsD(double v) { u64 b; __builtin_memcpy(&b, &v, 8); return b; } static double fromD(u64 b) { double v; __builtin_memcpy(&v, &b, 8); return v; }
static u32 bitsF(float v) { u32 b; __builtin_memcpy(&b, &v, 4); return b; } static float fromF(u32 b) { float v; __builtin_memcpy(&v, &b, 4); return v; }
double trunc(double v) { u64 b = bitsD(v); int e = (int)((b >> 52) & 2047) - 1023; if (e >= 52) return v; if (e < 0) return fromD(b & (1ull << 63)); return fromD(b & ~((1ull << (52 - e)) - 1)); }
float truncf(float v) { u32 b = bitsF(v); int e = (int)((b >> 23) & 255) - 127; if (e >= 23) return v; if (e < 0) return fromF(b & (1u << 31)); return fromF(b & ~((1u << (23 - e)) - 1)); }
double floor(double v) { double t = trunc(v); return v < t ? t - 1.0 : t; } float floorf(float v) { float t = truncf(v); return v < t ? t - 1.0f : t; }
double ceil(double v) { double t = trunc(v); return v > t ? (t == -1.0 ? fromD(1ull << 63) : t + 1.0) : t; } float ceilf(float v) { float t = truncf(v); return v > t ? t + 1.0f : t; }
double round(double v) { double t = trunc(v); double d = v - t; return d >= 0.5 ? t + 1.0 : d <= -0.5 ? t - 1.0 : t; } float roundf(float v) { float t = truncf(v); float d = v - t; return d >= 0.5f ? t + 1.0f : d <= -0.5f ? t - 1.0f : t; }
long lround(double v) { return (long)round(v); } double modf(double v, double* i) { *i = trunc(v); return v - *i; }
double fabs(double v) { return __builtin_fabs(v); } float fabsf(float v) { return __builtin_fabsf(v); } double copysign(double a, double b) { return __builtin_copysign(a, b); }
double fmax(double a, double b) { return a != a ? b : b != b ? a : a > b ? a : b; } double fmin(double a, double b) { return a != a ? b : b != b ? a : a < b ? a : b; }

// exceptions
void __cxa_end_catch() { void* p; u64 d = sym_exc_endcatch(&p); if (d) ((void (*)(void*))d)(p); if (p) sym_exc_free(p); }
void _ZNSt9exceptionD2Ev(void*) {}
void _ZNSt9exceptionD1Ev(void*) {}
void _ZNSt9exceptionD0Ev(void* p);
const char* _ZNKSt9exception4whatEv(const void*) { return "std::exception"; }
extern const void* const _ZTISt9exception[1]; extern const void* const _ZTISt13runtime_error[1]; extern const void* const _ZTISt11logic_error[1];
struct ExcModel { const void* vptr; char* msg; };
void _ZdlPv(void*);
void _ZNSt9exceptionD0Ev(void* p) { _ZdlPv(p); }
extern const void* const _ZTVSt9exception[5] = {nullptr, _ZTISt9exception, (void*)_ZNSt9exceptionD1Ev, (void*)_ZNSt9exceptionD0Ev, (void*)_ZNKSt9exception4whatEv};
void _ZNSt13runtime_errorD2Ev(ExcModel* e) { free(e->msg); }
void _ZNSt13runtime_errorD1Ev(ExcModel* e) { free(e->msg); }
void _ZNSt13runtime_errorD0Ev(ExcModel* e) { free(e->msg); _ZdlPv(e); }
const char* _ZNKSt13runtime_error4whatEv(const ExcModel* e) { return e->msg; }
extern const void* const _ZTVSt13runtime_error[5] = {nullptr, _ZTISt13runtime_error, (void*)_ZNSt13runtime_errorD1Ev, (void*)_ZNSt13runtime_errorD0Ev, (void*)_ZNKSt13runtime_error4whatEv};
void _ZNSt13runtime_errorC1EPKc(ExcModel* e, const char* m) { e->vptr = &_ZTVSt13runtime_error[2]; e->msg = strdup(m); }
void _ZNSt13runtime_errorC2EPKc(ExcModel* e, const char* m) { e->vptr = &_ZTVSt13runtime_error[2]; e->msg = strdup(m); }
void _ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(ExcModel* e, const char* const* m) { e->vptr = &_ZTVSt13runtime_error[2]; e->msg = strdup(*m); }
void _ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(ExcModel* e, const char* const* m) { e->vptr = &_ZTVSt13runtime_error[2]; e->msg = strdup(*m); }
#define LOGIC(N) \
  extern const void* const _ZTI##N[1]; \
  void _ZN##N##D2Ev(ExcModel* e) { free(e->msg); } void _ZN##N##D1Ev(ExcModel* e) { free(e->msg); } void _ZN##N##D0Ev(ExcModel* e) { free(e->msg); _ZdlPv(e); } \
  const char* _ZNK##N##4whatEv(const ExcModel* e) { return e->msg; } \
  extern const void* const _ZTV##N[5] = {nullptr, _ZTI##N, (void*)_ZN##N##D1Ev, (void*)_ZN##N##D0Ev, (void*)_ZNK##N##4whatEv}; \
  void _ZN##N##C1EPKc(ExcModel* e, const char* m) { e->vptr = &_ZTV##N[2]; e->msg = strdup(m); } void _ZN##N##C2EPKc(ExcModel* e, const char* m) { e->vptr = &_ZTV##N[2]; e->msg = strdup(m); } \
  void _ZN##N##C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(ExcModel* e, const char* const* m) { e->vptr = &_ZTV##N[2]; e->msg = strdup(*m); } void _ZN##N##C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(ExcModel* e, const char* const* m) { e->vptr = &_ZTV##N[2]; e->msg = strdup(*m); }
LOGIC(St11logic_error) LOGIC(St16invalid_argument) LOGIC(St12out_of_range) LOGIC(St12length_error)
extern const void* const _ZTVN10__cxxabiv120__si_class_type_infoE[3];
void* __dynamic_cast(const void* p, const void*, const void* want, long) { const void* const* v = *(const void* const* const*)p; const char* whole = (const char*)p + (long)v[-2]; for (const void* const* ti = (const void* const*)v[-1];; ti = (const void* const*)ti[2]) { if (ti == want) return (void*)whole; if (ti[0] != &_ZTVN10__cxxabiv120__si_class_type_infoE[2]) return nullptr; } }
int __gxx_personality_v0(...) { return 0; }
}
// std::exception_ptr and friends are not modelled
