// Large documents: concrete content everywhere except for one element, in any position, that is symbolic or does not fit.
#pragma once
#include "zoo.hpp"
#include "sweep.hpp"
#ifndef LONGN
#define LONGN 12
#endif
// sweep mode: sizes from a list (up to 300), the element in focus first, in the middle or last; lengths of strings and keys from a list (up to 5000)
static bool g_sweep; static unsigned g_in = 3; static int g_strlen = -1, g_keylen = -1;
struct Salt { unsigned v = 0; unsigned next() { return v = v * 5 + 3 & 0xffff; } };
template <class T, class = void> struct Lng;
template <class T> JV lng(bool f, Salt& s, unsigned n) { return Lng<T>::make(f, s, n); }
inline std::string saltStr(unsigned k) { static const char* const E[] = { "", "plain", "with space", "q\"b\\/", "line\nfeed\t\x01", "exactly15chars!", "exactly16chars!!", "0123456789012345678901234567890123456789", "\xc3\xa9\xe2\x82\xac" }; return E[k % 9] + std::string(k % 4, 'z') + (k >= 512 ? std::to_string(k) : std::string()); }
// one element in focus: symbolic content of the right kind, or another kind
inline JV focusLeaf(unsigned kind) { if (g_strlen >= 0 && kind == JV::Str) { JV v; v.k = JV::Str; v.s = sweepStr((unsigned)g_strlen); return v; } if (g_sweep) return sym_choice(2, "other kind") ? leaf(kind == JV::Null ? JV::Bool : JV::Null) : leaf(kind); if (sym_choice(2, "other kind")) return odd(); if (kind == JV::Str && sym_choice(2, "long")) { JV v; v.k = JV::Str; v.s = std::string(20, 'x'); sym_bytes(&v.s[17], 1, "char"); return v; } return leaf(kind); }
template <> struct Lng<bool> { static JV make(bool f, Salt& s, unsigned) { if (f) return focusLeaf(JV::Bool); JV v; v.k = JV::Bool; v.b = s.next() >> 4 & 1; return v; } };
template <> struct Lng<std::nullptr_t> { static JV make(bool f, Salt&, unsigned) { return f ? focusLeaf(JV::Null) : JV(); } };
template <> struct Lng<std::string> { static JV make(bool f, Salt& s, unsigned) { if (f) return focusLeaf(JV::Str); JV v; v.k = JV::Str; v.s = saltStr(s.next() >> 3); return v; } };
template <class T> struct Lng<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> { static JV make(bool f, Salt& s, unsigned) { if (f) return focusLeaf(JV::Int); JV v; v.k = JV::Int; v.i = (int64_t)(s.next() & (sizeof(T) == 1 ? 127 : 0x7fff)); return v; } };
template <class T> struct Lng<T, std::enable_if_t<std::is_floating_point_v<T>>> { static JV make(bool f, Salt& s, unsigned) { if (f) return sym_choice(2, "other kind") ? leaf(sym_choice(2, "k") ? JV::Str : JV::Null) : leaf(JV::Dbl); JV v; v.k = JV::Dbl; v.d = s.next() / 4.0 + 0.125; return v; } };
inline JV lngStr(bool f, const char* t) { if (f) return sym_choice(2, "other kind") ? leaf(sym_choice(5, "k")) : oneOfStrs(); JV v; v.k = JV::Str; v.s = t; return v; }
template <> struct Lng<byte_vector> { static JV make(bool f, Salt&, unsigned) { return lngStr(f, "AQI="); } }; template <> struct Lng<timestamp> { static JV make(bool f, Salt&, unsigned) { return lngStr(f, "2023-02-28T12:30:59Z"); } }; template <> struct Lng<Date> { static JV make(bool f, Salt&, unsigned) { return lngStr(f, "2023-02-28"); } }; template <> struct Lng<Named> { static JV make(bool f, Salt&, unsigned) { return lngStr(f, "b"); } };
// in a container the focus is the container itself (another kind of value) or one of its n elements
inline unsigned focusAt(bool f, unsigned n) { if (!f) return n + 1; if (g_sweep) { if (!n) return 1; unsigned k = sym_choice(n < 3 ? n : 3, "focus"); return k == 0 ? n - 1 : k == 1 ? 0 : n / 2; } return sym_choice(n + 1, "focus"); }
template <class T> JV lngArr(bool f, Salt& s, unsigned n, unsigned inner) { unsigned k = focusAt(f, n); if (f && n && k == n) { JV v = odd(); if (std::is_floating_point_v<T> && v.k == JV::Arr && v.a.size()) v.a[0].i = 17; return v; } JV v; v.k = JV::Arr; for (unsigned i = 0; i < n; i++) v.a.push_back(lng<T>(i == k, s, inner)); return v; }
template <class T> struct Lng<std::vector<T>, std::enable_if_t<!std::is_same_v<T, std::byte>>> { static JV make(bool f, Salt& s, unsigned n) { return lngArr<T>(f, s, n, g_in); } };
template <class T> struct Lng<std::set<T>> { static JV make(bool f, Salt& s, unsigned n) { return lngArr<T>(f, s, n, g_in); } };
template <class T, size_t N> struct Lng<std::array<T, N>> { static JV make(bool f, Salt& s, unsigned) { JV v = lngArr<T>(f, s, N, g_in); if (f && !g_sweep && v.a.size() == N) { unsigned k = sym_choice(3, "skew"); if (k == 1) v.a.pop_back(); if (k == 2) v.a.push_back(v.a.back()); } return v; } };
template <class... Ts> struct LngTup { static JV make(bool f, Salt& s, unsigned) { constexpr unsigned n = sizeof...(Ts); unsigned k = focusAt(f, n), i = 0; if (f && k == n) { unsigned q = sym_choice(3, "skew"); if (q == 0) return odd(); JV v = make(false, s, 0); if (q == 1) v.a.pop_back(); else v.a.push_back(v.a.back()); return v; } JV v; v.k = JV::Arr; ((v.a.push_back(lng<Ts>(i == k, s, g_in)), i++), ...); return v; } };
template <class A, class B> struct Lng<std::pair<A, B>> : LngTup<A, B> {}; template <class... Ts> struct Lng<std::tuple<Ts...>> : LngTup<Ts...> {};
inline std::string saltKey(unsigned i) { static const char* const E[] = { "key", "", "a/b", "~", "a key that does not fit in a small string", "q\"", "0", "K" }; return E[i % 8] + (i < 8 ? std::string() : std::to_string(i)); }
template <class T> JV lngMap(bool f, Salt& s, unsigned n) { JV v = lngArr<T>(f, s, n, g_in); if (v.k == JV::Arr && v.a.size() == n) { v.k = JV::Obj; for (unsigned i = 0; i < n; i++) v.keys.push_back(saltKey(i)); if (f && n && g_keylen >= 0) { v.keys[n / 2] = sweepStr((unsigned)g_keylen); for (unsigned i = 0; i < n; i++) if (i != n / 2) v.keys[i] += "#other"; } } return v; }
template <class T> struct Lng<std::map<std::string, T>> { static JV make(bool f, Salt& s, unsigned n) { return lngMap<T>(f, s, n); } };
template <class T> struct Lng<std::unordered_map<std::string, T>> { static JV make(bool f, Salt& s, unsigned n) { return lngMap<T>(f, s, n); } };
template <class T> struct Lng<std::unique_ptr<T>> : Lng<T> {}; template <class T> struct Lng<std::shared_ptr<T>> : Lng<T> {}; template <class T> struct Lng<std::optional<T>> : Lng<T> {};
// an object: every member present, or one in focus, or one absent, or one key too many
struct LF { const char* name; int kind; JV (*make)(bool, Salt&, unsigned); };
inline JV lngObj(bool f, Salt& s, const std::vector<LF>& ms) { unsigned n = (unsigned)ms.size(), k = focusAt(f, n), absent = n, extra = 0; if (f && k == n) { unsigned q = sym_choice(3, "object"); if (q == 0) return odd(); if (q == 1) absent = sym_choice(n, "absent"); else extra = 1; } JV v; v.k = JV::Obj; for (unsigned i = 0; i < n; i++) if (i != absent) { v.keys.push_back(ms[i].name); v.a.push_back(ms[i].make(i == k, s, g_in)); } if (extra) { v.keys.push_back("unknown_key"); v.a.push_back(leaf(JV::Int)); } return v; }
#define BIG_FIELDS(X) X(bool, flag, 0) X(int, number, 0) X(unsigned short, count, 0) X(S, text, 0) X(std::optional<S>, note, 1) X(V<int>, list, 0) X(M<bool>, dict, 0) X(BigT, tuple, 0) X(Named, kind, 0) X(Date, day, 0) X(timestamp, when, 0) X(byte_vector, blob, 0) X(O2, inner, 0) X(V<O2>, inners, 0) X(std::optional<V<S>>, names, 1) X(UP<S>, owned, 0) X(SP<int>, shared, 0) X(bool, fallback, 2) X(BigA, fixed, 0) X(std::set<S>, unique, 0)
using BigT = std::tuple<bool, std::string, int>; using BigA = std::array<short, 4>;
template <> struct Lng<O2> { static JV make(bool f, Salt& s, unsigned) { return lngObj(f, s, { { "a", 0, lng<bool> }, { "b", 0, lng<std::string> } }); } };
#define BPERS0(n) & MEMBER_VARIABLE(n)
#define BPERS1(n) & MEMBER_VARIABLE(n)
#define BPERS2(n) & MEMBER_VARIABLE_DEFAULT(n)
#define BREF0(n) & req(v, #n, n)
#define BREF1(n) & opt(v, #n, n)
#define BREF2(n) & def(v, #n, n)
struct Big {
#define X(T, n, k) T n{};
  BIG_FIELDS(X)
#undef X
  template <class Ar> constexpr auto persist(Ar& ar) { return ar
#define X(T, n, k) BPERS##k(n)
    BIG_FIELDS(X)
#undef X
  ; }
  static const std::vector<LF> fields() { return {
#define X(T, n, k) { #n, k, lng<T> },
    BIG_FIELDS(X)
#undef X
  }; }
  bool ref(const JV& v) { static const std::vector<LF> fs = fields(); if (v.k != JV::Obj) return false; for (auto& k : v.keys) { bool known = false; for (auto& f : fs) known |= k == f.name; if (!known) g_unknown++; } return true
#define X(T, n, k) BREF##k(n)
    BIG_FIELDS(X)
#undef X
  ; }
  bool operator==(const Big& o) const { return true
#define X(T, n, k) && eq(n, o.n)
    BIG_FIELDS(X)
#undef X
  ; } };
template <> struct Lng<Big> { static JV make(bool f, Salt& s, unsigned) { return lngObj(f, s, Big::fields()); } };
#define LONGC(X) X(vint, V<int>) X(vbool, V<bool>) X(vstr, V<S>) X(sint, std::set<int>) X(sstr, std::set<S>) X(svb, std::set<V<bool>>) X(aint, A<int, 7>) X(astr, A<S, 5>) X(tuple6, T<int, S, bool, V<bool>, S, short>) X(pair, P<V<S>, M<S>>) X(mint, M<int>) X(mstr, M<S>) X(umstr, UM<S>) X(vv, V<V<int>>) X(mv, M<V<S>>) X(vm, V<M<bool>>) X(vup, V<UP<S>>) X(vsp, V<SP<int>>) X(vnamed, V<Named>) X(vdate, V<Date>) X(vbytes, V<byte_vector>) X(vdbl, V<double>) X(va, V<A<bool, 3>>) X(vt, V<T<S, bool, int>>)
#define LONGO(X) X(vO2, V<O2>) X(mO2, M<O2>) X(Big, Big)
template <class T> JV longTree() { Salt s{ 7 }; return lng<T>(true, s, LONGN); }
template <class T> T longValue(unsigned salt, unsigned n = LONGN) { Salt s{ salt }; T t{}; ref(lng<T>(false, s, n), t); return t; }

// sizes at the outer or at the inner level
template <class T> inline constexpr unsigned sweepMax = 300; template <> inline constexpr unsigned sweepMax<std::set<int>> = 12; template <> inline constexpr unsigned sweepMax<std::set<S>> = 40; // a symbolic number is compared with every element
template <class T> JV sweepTree(unsigned levels, unsigned max = 300) { g_sweep = true; max = max < sweepMax<T> ? max : sweepMax<T>; Salt s{ 7 }; unsigned n = sweepSize(max), out = n; if (levels > 1 && sym_choice(2, "level")) { g_in = n; out = 2; } JV v = lng<T>(true, s, out); g_in = 3; g_sweep = false; return v; }
// lengths of a string or of a key
template <class T> JV lenTree(bool keys, unsigned max = 5000) { g_sweep = true; Salt s{ 7 }; int n = (int)sweepLen(max); if (keys && sym_choice(2, "of a key")) g_keylen = n; else g_strlen = n; JV v = lng<T>(true, s, 3); g_strlen = g_keylen = -1; g_sweep = false; return v; }
using A33 = A<int, 33>; using A17 = A<S, 17>;
#define SWEEPC(X) X(vint, 1, V<int>) X(vbool, 1, V<bool>) X(vstr, 1, V<S>) X(sint, 1, std::set<int>) X(sstr, 1, std::set<S>) X(mint, 1, M<int>) X(mstr, 1, M<S>) X(umstr, 1, UM<S>) X(vv, 2, V<V<short>>) X(mv, 2, M<V<S>>) X(vm, 2, V<M<bool>>) X(vsp, 1, V<SP<int>>) X(vup, 1, V<UP<S>>) X(vt, 1, V<T<S, bool, int>>) X(pair, 2, P<V<S>, M<bool>>) X(a33, 1, A33) X(a17, 1, A17) X(vnamed, 1, V<Named>)
#define SWEEPO(X) X(vO2, 1, V<O2>) X(mO2, 1, M<O2>)
#define LENC(X) X(str, 0, S) X(vstr, 0, V<S>) X(sstr, 0, std::set<S>) X(mstr, 1, M<S>) X(umstr, 1, UM<S>) X(tuple, 0, T<bool, S, S>) X(vsp, 0, V<SP<S>>) X(aastr, 0, A<S, 3>)
#define LENO(X) X(O2, 0, O2) X(mO2, 1, M<O2>)
