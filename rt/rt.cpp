// Models of the few libstdc++/libc functions that have no body in headers.  Linked into every encoding.
// (Everything header-defined in libstdc++ and RapidJSON is executed as compiled.)
#include <cstddef>
#include <cstdint>
#include <string>
#include <stdexcept>
#include <exception>
#include <new>
#include <typeinfo>
#include <map>
#include <unordered_map>
#include <variant>
#include <optional>
#include <ctime>
template class std::basic_string<char>;
extern "C" { char __libc_single_threaded = 1;
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { for (;; a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncmp(const char* a, const char* b, size_t n) { for (; n; a++, b++, n--) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
void* memchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void*)(p + i); return nullptr; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
}
namespace std {
exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "bad_exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "bad_cast"; }
type_info::~type_info() {}
static char* dupz(const char* s, size_t n) { char* p = (char*)::operator new(n + 1); for (size_t i = 0; i < n; i++) p[i] = s[i]; p[n] = 0; return p; }
static size_t lenz(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
__cow_string::__cow_string() : _M_p(dupz("", 0)) {}
__cow_string::__cow_string(const std::string& s) : _M_p(dupz(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(dupz(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(dupz(o._M_p, lenz(o._M_p))) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { ::operator delete((void*)_M_p); _M_p = dupz(o._M_p, lenz(o._M_p)); } return *this; }
__cow_string::~__cow_string() { ::operator delete((void*)_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) { o._M_p = dupz("", 0); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { const char* t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }
#define STDEXC(C) C::C(const string& s) : _M_msg(s) {} C::C(const char* s) : _M_msg(s, lenz(s)) {} C::C(const C& o) noexcept : exception(o), _M_msg(o._M_msg) {} C& C::operator=(const C& o) noexcept { _M_msg = o._M_msg; return *this; } C::~C() noexcept {} const char* C::what() const noexcept { return _M_msg._M_p; } C::C(C&& o) noexcept : exception(std::move(o)), _M_msg(std::move(o._M_msg)) {} C& C::operator=(C&& o) noexcept { _M_msg = std::move(o._M_msg); return *this; }
STDEXC(logic_error) STDEXC(runtime_error)
#define SUBEXC(C, B) C::C(const string& s) : B(s) {} C::C(const char* s) : B(s) {} C::~C() noexcept {}
SUBEXC(out_of_range, logic_error) SUBEXC(length_error, logic_error) SUBEXC(invalid_argument, logic_error) SUBEXC(domain_error, logic_error)
SUBEXC(overflow_error, runtime_error) SUBEXC(range_error, runtime_error) SUBEXC(underflow_error, runtime_error)
void __throw_bad_alloc() { throw bad_alloc(); } void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_logic_error(const char* s) { throw logic_error(s); } void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); } void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); } void __throw_runtime_error(const char* s) { throw runtime_error(s); }


// ---- red-black tree (ordinary unbalanced BST links are semantically equivalent for map/set: ordering and
//      iteration depend only on the parent/left/right links).  Header node: parent=root, left=min, right=max.
static _Rb_tree_node_base* inc(_Rb_tree_node_base* x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static _Rb_tree_node_base* dec(_Rb_tree_node_base* x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return dec(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black; // all nodes black, header stays red: decrement() tells the header apart
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base *&root = h._M_parent, *y, *x;
  if (h._M_left == z) h._M_left = (z == root && !z->_M_right) ? &h : inc(z);
  if (h._M_right == z) { if (z == root && !z->_M_left) h._M_right = &h; else h._M_right = dec(z); }
  auto repl = [&](_Rb_tree_node_base* o, _Rb_tree_node_base* n) { if (root == o) root = n; else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n; else o->_M_parent->_M_right = n; if (n) n->_M_parent = o->_M_parent; };
  if (!z->_M_left) repl(z, z->_M_right); else if (!z->_M_right) repl(z, z->_M_left);
  else { y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
  (void)x; return z; }
// ---- hashing: any deterministic hash is a legal std::hash; a cheap one keeps terms small
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { return n; }
size_t _Fnv_hash_bytes(const void* p, size_t n, size_t seed) { return n; }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t b = n < 13 ? 13 : n | 1; _M_next_resize = b; return b; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > _M_next_resize) { size_t m = ne + ni > 2 * nb ? ne + ni : 2 * nb; return { true, _M_next_bkt(m) }; } return { false, 0 }; }
}
}
// ---- calendar (proleptic Gregorian, no leap seconds): what POSIX specifies for timegm/gmtime
static bool leap(long long y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static long long dfc(long long y, int m, int d) { y -= m <= 2; long long era = (y >= 0 ? y : y - 399) / 400; unsigned yoe = (unsigned)(y - era * 400); unsigned doy = (153 * (m > 2 ? m - 3 : m + 9) + 2) / 5 + d - 1; unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + (long long)doe - 719468; }
static bool normal(const struct tm* t) { if ((unsigned)t->tm_mon >= 12 || (unsigned)t->tm_hour >= 24 || (unsigned)t->tm_min >= 60 || (unsigned)t->tm_sec >= 60 || t->tm_mday < 1) return false; if (t->tm_mday <= 28) return true; static const unsigned char md[12] = {31,28,31,30,31,30,31,31,30,31,30,31}; return t->tm_mday <= md[t->tm_mon] || (t->tm_mon == 1 && t->tm_mday == 29 && leap(1900LL + t->tm_year)); }
extern "C" {
static struct tm g_tm;
struct tm* gmtime_r(const time_t* tp, struct tm* r) { long long t = *tp; long long z = t / 86400; long long s = t % 86400; if (s < 0) { s += 86400; z -= 1; }
  r->tm_hour = (int)(s / 3600); r->tm_min = (int)(s % 3600 / 60); r->tm_sec = (int)(s % 60); r->tm_wday = (int)(((z % 7) + 11) % 7);
  long long zz = z + 719468; long long era = (zz >= 0 ? zz : zz - 146096) / 146097; unsigned doe = (unsigned)(zz - era * 146097); unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; long long y = (long long)yoe + era * 400; unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100); unsigned mp = (5 * doy + 2) / 153; unsigned d = doy - (153 * mp + 2) / 5 + 1; unsigned m = mp < 10 ? mp + 3 : mp - 9;
  y += m <= 2; r->tm_year = (int)(y - 1900); r->tm_mon = (int)m - 1; r->tm_mday = (int)d; static const int cum[12] = {0,31,59,90,120,151,181,212,243,273,304,334}; r->tm_yday = cum[m - 1] + d - 1 + (m > 2 && leap(y)); r->tm_isdst = 0; r->tm_gmtoff = 0; r->tm_zone = "GMT"; return r; }
// normalises out-of-range fields like glibc, and writes them back
time_t timegm(struct tm* t) { long long y = 1900LL + t->tm_year; int m = t->tm_mon; if (m < 0 || m > 11) { int q = m >= 0 ? m / 12 : -((11 - m) / 12); y += q; m -= 12 * q; } 
  long long days = dfc(y, m + 1, 1) + (t->tm_mday - 1); time_t r = days * 86400 + t->tm_hour * 3600LL + t->tm_min * 60LL + t->tm_sec; if (!normal(t)) gmtime_r(&r, t); return r; }
struct tm* gmtime(const time_t* t) { return gmtime_r(t, &g_tm); }
}
