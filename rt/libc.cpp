// Further models of C and C++ library functions: not used by the library today, present so that an edit which starts to use them
// can still be encoded.  Checked against the native functions by checks/selftest.cpp (tools/selftest.sh).
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <ctime>
#include <exception>
#include <functional>
#include <list>
#include <memory>
#include <stdexcept>
#include <string>
typedef long long ll; typedef unsigned long long ull;
static bool sp(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
static int dig(char c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'z') return c - 'a' + 10; if (c >= 'A' && c <= 'Z') return c - 'A' + 10; return 99; }
static int g_errno;
static ull scanInt(const char* s, char** end, int base, bool sgn, bool* neg, bool* ovf) {
  const char* p = s; while (sp(*p)) p++; *neg = false; *ovf = false; if (*p == '+' || *p == '-') { *neg = *p == '-'; p++; }
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && dig(p[2]) < 16) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
  if (dig(*p) >= base) { if (end) *end = (char*)s; return 0; }
  ull v = 0; for (; dig(*p) < base; p++) { ull n = v * base + dig(*p); if (v > (~0ull - dig(*p)) / base) *ovf = true; v = n; }
  if (end) *end = (char*)p; return v; }
static ll toSigned(const char* s, char** e, int b) { bool neg, ovf; ull v = scanInt(s, e, b, true, &neg, &ovf); ull lim = neg ? 0x8000000000000000ull : 0x7fffffffffffffffull; if (ovf || v > lim) { g_errno = 34; return (ll)lim; } return neg ? (ll)(0 - v) : (ll)v; }
static ull toUnsigned(const char* s, char** e, int b) { bool neg, ovf; ull v = scanInt(s, e, b, false, &neg, &ovf); if (ovf) { g_errno = 34; return ~0ull; } return neg ? 0 - v : v; }
struct Out { char* b; size_t n, cap; void put(char c) { if (n + 1 < cap) b[n] = c; n++; } };
static int fmt(Out& o, const char* f, va_list ap) {
  for (; *f; f++) { if (*f != '%') { o.put(*f); continue; } f++; if (*f == '%') { o.put('%'); continue; }
    bool left = false, zero = false, plus = false, space = false, alt = false; for (;; f++) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true; else if (*f == ' ') space = true; else if (*f == '#') alt = true; else break; }
    int w = 0, pr = -1; if (*f == '*') { w = va_arg(ap, int); if (w < 0) { left = true; w = -w; } f++; } else while (*f >= '0' && *f <= '9') w = w * 10 + (*f++ - '0');
    if (*f == '.') { f++; pr = 0; if (*f == '*') { pr = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') pr = pr * 10 + (*f++ - '0'); }
    int len = 0, h = 0; for (;; f++) { if (*f == 'l') len++; else if (*f == 'z' || *f == 'j' || *f == 't' || *f == 'q') len = 2; else if (*f == 'h') h++; else break; }
    char c = *f; char tmp[72]; int k = 0; const char* body = tmp; size_t bl = 0; char sign = 0; const char* pre = "";
    if (c == 'c') { tmp[0] = (char)va_arg(ap, int); bl = 1; zero = false; }
    else if (c == 's') { body = va_arg(ap, const char*); if (!body) body = "(null)"; while ((pr < 0 || bl < (size_t)pr) && body[bl]) bl++; zero = false; }
    else if (c == 'd' || c == 'i' || c == 'u' || c == 'x' || c == 'X' || c == 'o' || c == 'p') {
      ull v; if (c == 'd' || c == 'i') { ll x = len ? va_arg(ap, ll) : va_arg(ap, int); if (!len && h == 1) x = (short)x; if (!len && h > 1) x = (signed char)x; if (x < 0) { sign = '-'; v = 0 - (ull)x; } else { v = x; sign = plus ? '+' : space ? ' ' : 0; } }
      else if (c == 'p') { v = va_arg(ap, ull); pre = "0x"; } else { v = len ? va_arg(ap, ull) : va_arg(ap, unsigned); if (!len && h == 1) v = (unsigned short)v; if (!len && h > 1) v = (unsigned char)v; if (alt && v && c != 'u') pre = c == 'x' ? "0x" : c == 'X' ? "0X" : "0"; }
      unsigned base = c == 'o' ? 8 : c == 'x' || c == 'X' || c == 'p' ? 16 : 10; char r[70]; if (v == 0 && pr != 0) r[k++] = '0'; while (v) { unsigned d = (unsigned)(v % base); r[k++] = d < 10 ? '0' + d : (c == 'X' ? 'A' : 'a') + d - 10; v /= base; } while (k < pr && k < 66) r[k++] = '0'; if (pr >= 0) zero = false;
      for (int i = 0; i < k; i++) tmp[i] = r[k - 1 - i]; bl = k; }
    else __builtin_trap();
    size_t tot = bl + (sign ? 1 : 0); for (const char* q = pre; *q; q++) tot++;
    if (!left && !zero) for (size_t i = tot; i < (size_t)w; i++) o.put(' ');
    if (sign) o.put(sign); for (const char* q = pre; *q; q++) o.put(*q);
    if (!left && zero) for (size_t i = tot; i < (size_t)w; i++) o.put('0');
    for (size_t i = 0; i < bl; i++) o.put(body[i]);
    if (left) for (size_t i = tot; i < (size_t)w; i++) o.put(' '); }
  return (int)o.n; }
static int scan(const char* s, const char* f, va_list ap) { // integers, characters, %s, %n
  const char* p = s; int got = 0; for (; *f; f++) { if (sp(*f)) { while (sp(*p)) p++; continue; } if (*f != '%') { if (*p != *f) return !*p && !got ? -1 : got; p++; continue; } f++; if (*f == '%') { if (*p != '%') return got; p++; continue; }
    bool skip = false; if (*f == '*') { skip = true; f++; } int w = 0; while (*f >= '0' && *f <= '9') w = w * 10 + (*f++ - '0'); int len = 0, h = 0; for (;; f++) { if (*f == 'l') len++; else if (*f == 'z') len = 2; else if (*f == 'h') h++; else break; }
    char c = *f; if (c == 'n') { *va_arg(ap, int*) = (int)(p - s); continue; }
    if (c == 'c') { int n = w ? w : 1; char* d = skip ? nullptr : va_arg(ap, char*); for (int i = 0; i < n; i++) { if (!*p) return got ? got : -1; if (d) d[i] = *p; p++; } if (!skip) got++; continue; }
    while (sp(*p)) p++; if (!*p) return got ? got : -1;
    if (c == 's') { char* d = skip ? nullptr : va_arg(ap, char*); for (int i = 0; *p && !sp(*p) && (!w || i < w); i++, p++) if (d) *d++ = *p; if (d) *d = 0; if (!skip) got++; continue; }
    if (c != 'd' && c != 'u' && c != 'x') __builtin_trap();
    int base = c == 'x' ? 16 : 10, n = 0; bool neg = false; if ((*p == '+' || *p == '-') ) { neg = *p == '-'; p++; n++; } ull v = 0; bool any = false; while ((!w || n < w) && dig(*p) < base) { v = v * base + dig(*p); p++; n++; any = true; } if (!any) return !*p && !got ? -1 : got; if (neg) v = 0 - v;
    if (!skip) { if (len) *va_arg(ap, ull*) = v; else if (h == 1) *va_arg(ap, short*) = (short)v; else if (h > 1) *va_arg(ap, char*) = (char)v; else *va_arg(ap, int*) = (int)v; got++; } }
  return got; }
extern "C" {
int* __errno_location() { return &g_errno; }
long strtol(const char* s, char** e, int b) { return toSigned(s, e, b); } ll strtoll(const char* s, char** e, int b) { return toSigned(s, e, b); }
unsigned long strtoul(const char* s, char** e, int b) { return toUnsigned(s, e, b); } ull strtoull(const char* s, char** e, int b) { return toUnsigned(s, e, b); }
#undef atoi
int atoi(const char* s) { return (int)toSigned(s, nullptr, 10); } long atol(const char* s) { return toSigned(s, nullptr, 10); } ll atoll(const char* s) { return toSigned(s, nullptr, 10); }
int vsnprintf(char* b, size_t n, const char* f, va_list ap) { Out o{ b, 0, n }; int r = fmt(o, f, ap); if (n) b[o.n < n ? o.n : n - 1] = 0; return r; }
int snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, 1u << 30, f, ap); va_end(ap); return r; }
int vsprintf(char* b, const char* f, va_list ap) { return vsnprintf(b, 1u << 30, f, ap); }
int __isoc99_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = scan(s, f, ap); va_end(ap); return r; }
int sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = scan(s, f, ap); va_end(ap); return r; }
char* strstr(const char* h, const char* n) { for (;; h++) { const char *a = h, *b = n; while (*b && *a == *b) a++, b++; if (!*b) return (char*)h; if (!*h) return nullptr; } }
void* memmem(const void* h, size_t hn, const void* n, size_t nn) { const char *p = (const char*)h, *q = (const char*)n; for (size_t i = 0; i + nn <= hn; i++) { size_t k = 0; while (k < nn && p[i + k] == q[k]) k++; if (k == nn) return (void*)(p + i); } return nullptr; }
static bool in(char c, const char* s) { for (; *s; s++) if (*s == c) return true; return false; }
size_t strspn(const char* s, const char* a) { size_t n = 0; while (s[n] && in(s[n], a)) n++; return n; } size_t strcspn(const char* s, const char* a) { size_t n = 0; while (s[n] && !in(s[n], a)) n++; return n; }
char* strpbrk(const char* s, const char* a) { for (; *s; s++) if (in(*s, a)) return (char*)s; return nullptr; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; } char* stpcpy(char* d, const char* s) { while ((*d = *s++)) d++; return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { char* p = d; while (*p) p++; while ((*p++ = *s++)) {} return d; } char* strncat(char* d, const char* s, size_t n) { char* p = d; while (*p) p++; while (n-- && *s) *p++ = *s++; *p = 0; return d; }
char* strrchr(const char* s, int c) { const char* r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
void* memrchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; while (n--) if (p[n] == (unsigned char)c) return (void*)(p + n); return nullptr; }
void* rawmemchr(const void* s, int c) { const unsigned char* p = (const unsigned char*)s; while (*p != (unsigned char)c) p++; return (void*)p; }
size_t strnlen(const char* s, size_t n) { size_t k = 0; while (k < n && s[k]) k++; return k; }
void* malloc(size_t); char* strdup(const char* s) { size_t n = 0; while (s[n]) n++; char* d = (char*)malloc(n + 1); for (size_t i = 0; i <= n; i++) d[i] = s[i]; return d; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; } int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char* a, const char* b) { for (;; a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } }
int strncasecmp(const char* a, const char* b, size_t n) { for (; n; a++, b++, n--) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
int isdigit(int c) { return c >= '0' && c <= '9'; } int isupper(int c) { return c >= 'A' && c <= 'Z'; } int islower(int c) { return c >= 'a' && c <= 'z'; } int isalpha(int c) { return isupper(c) || islower(c); } int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); } int isblank(int c) { return c == ' ' || c == 9; } int isprint(int c) { return c >= 32 && c < 127; } int isgraph(int c) { return c > 32 && c < 127; } int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; } int ispunct(int c) { return isgraph(c) && !isalnum(c); } int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
void qsort(void* b, size_t n, size_t w, int (*cmp)(const void*, const void*)) { char* p = (char*)b; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(p + (j - 1) * w, p + j * w) > 0; j--) for (size_t k = 0; k < w; k++) { char t = p[(j - 1) * w + k]; p[(j - 1) * w + k] = p[j * w + k]; p[j * w + k] = t; } }
void* bsearch(const void* key, const void* b, size_t n, size_t w, int (*cmp)(const void*, const void*)) { size_t lo = 0, hi = n; while (lo < hi) { size_t m = (lo + hi) / 2; const char* p = (const char*)b + m * w; int c = cmp(key, p); if (!c) return (void*)p; if (c < 0) hi = m; else lo = m + 1; } return nullptr; }
wchar_t* wmemset(wchar_t* d, wchar_t c, size_t n) { for (size_t i = 0; i < n; i++) d[i] = c; return d; } wchar_t* wmemcpy(wchar_t* d, const wchar_t* s, size_t n) { for (size_t i = 0; i < n; i++) d[i] = s[i]; return d; } size_t wcslen(const wchar_t* s) { size_t n = 0; while (s[n]) n++; return n; }
int pthread_once(int* o, void (*f)()) { if (!*o) { f(); *o = 2; } return 0; }
char* getenv(const char*) { return nullptr; }
long lround(double d) { return (long)(d < 0 ? -(long)(-d + 0.5) : (long)(d + 0.5)); } ll llround(double d) { return lround(d); } long lrint(double d) { return (long)__builtin_rint(d); }
double modf(double d, double* ip) { double t = __builtin_isinf(d) ? d : __builtin_trunc(d); *ip = t; return __builtin_isinf(d) ? __builtin_copysign(0.0, d) : __builtin_copysign(d - t, d); }
double fmod(double x, double y) { if (y != 1.0 && y != -1.0 && y != 2.0 && y != 4.0) __builtin_trap(); double t = __builtin_trunc(x / y); return __builtin_copysign(x - t * y, x); }
float fmodf(float x, float y) { return (float)fmod(x, y); }
size_t strftime(char* s, size_t n, const char* f, const struct tm* t) { Out o{ s, 0, n }; auto num = [&](int v, int w) { int p = 1; for (int i = 1; i < w; i++) p *= 10; if (v < 0) { o.put('-'); v = -v; } if (w == 1) { char r[12]; int k = 0; do r[k++] = '0' + v % 10; while (v /= 10); while (k) o.put(r[--k]); return; } for (; p; p /= 10) o.put('0' + v / p % 10); };
  for (; *f; f++) { if (*f != '%') { o.put(*f); continue; } switch (*++f) { case 'Y': num(t->tm_year + 1900, 1); break; case 'm': num(t->tm_mon + 1, 2); break; case 'd': num(t->tm_mday, 2); break; case 'H': num(t->tm_hour, 2); break; case 'M': num(t->tm_min, 2); break; case 'S': num(t->tm_sec, 2); break; case 'j': num(t->tm_yday + 1, 3); break; case 'F': num(t->tm_year + 1900, 1); o.put('-'); num(t->tm_mon + 1, 2); o.put('-'); num(t->tm_mday, 2); break; case 'T': num(t->tm_hour, 2); o.put(':'); num(t->tm_min, 2); o.put(':'); num(t->tm_sec, 2); break; case '%': o.put('%'); break; default: __builtin_trap(); } }
  if (o.n >= n) return 0; s[o.n] = 0; return o.n; }
char* strptime(const char* s, const char* f, struct tm* t) { auto num = [&](int w, int lo, int hi, int& out) { while (sp(*s)) s++; int v = 0, k = 0; while (k < w && *s >= '0' && *s <= '9') v = v * 10 + (*s++ - '0'), k++; if (!k || v < lo || v > hi) return false; out = v; return true; }; int v = 0;
  for (; *f; f++) { if (sp(*f)) { while (sp(*s)) s++; continue; } if (*f != '%') { if (*s != *f) return nullptr; s++; continue; } switch (*++f) { case 'Y': if (!num(4, 0, 9999, v)) return nullptr; t->tm_year = v - 1900; break; case 'm': if (!num(2, 1, 12, v)) return nullptr; t->tm_mon = v - 1; break; case 'd': if (!num(2, 1, 31, v)) return nullptr; t->tm_mday = v; break; case 'H': if (!num(2, 0, 23, v)) return nullptr; t->tm_hour = v; break; case 'M': if (!num(2, 0, 59, v)) return nullptr; t->tm_min = v; break; case 'S': if (!num(2, 0, 61, v)) return nullptr; t->tm_sec = v; break; case 'F': if (!(s = strptime(s, "%Y-%m-%d", t))) return nullptr; break; case 'T': if (!(s = strptime(s, "%H:%M:%S", t))) return nullptr; break; case '%': if (*s++ != '%') return nullptr; break; default: __builtin_trap(); } }
  return (char*)s; }
}
#include <mutex>
namespace std {
__thread void* __once_callable; __thread void (*__once_call)(); extern "C" void __once_proxy() { __once_call(); }
bad_weak_ptr::~bad_weak_ptr() noexcept {} const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_bad_optional_access(); void __throw_system_error(int) { throw runtime_error("system_error"); } void __throw_domain_error(const char* s) { throw domain_error(s); } void __throw_overflow_error(const char* s) { throw overflow_error(s); } void __throw_range_error(const char* s) { throw range_error(s); }
namespace __detail {
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept { bool ex = x._M_next == &x, ey = y._M_next == &y; if (!ex && !ey) { swap_: auto *a = x._M_next, *b = x._M_prev, *c = y._M_next, *d = y._M_prev; x._M_next = c; x._M_prev = d; y._M_next = a; y._M_prev = b; c->_M_prev = d->_M_next = &x; a->_M_prev = b->_M_next = &y; } else if (!ex) { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } else if (!ey) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept { if (this == last) return; last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first; auto* t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; }
void _List_node_base::_M_reverse() noexcept { auto* t = this; do { auto* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
}
}
