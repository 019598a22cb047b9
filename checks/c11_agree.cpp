// C11: the streaming parser and the document reader agree on every text: same verdict, same value.
#include "long.hpp"
template <class T> static void agree(const std::string& s) { T a{}, b{}; bool p = parse(s, a), d = deserialize(s, b); sym_assert(p == d, "the parser and the document reader agree on what is acceptable"); if (p) sym_assert(eq(a, b), "the parser and the document reader return the same value"); sym_print("r", p); sym_reach(p ? "accepted" : "rejected"); }
static bool small(const JV& v) { if (v.k == JV::Int && !(v.i > -16777216 && v.i < 16777216)) return false; for (auto& x : v.a) if (!small(x)) return false; return true; }
// objects: every member present, no unknown key (the two readers are documented to differ there)
template <class T> static void shaped(bool floats = false) { Dev d{ 1 }; JV v = shape<T>(d); g_missing = g_unknown = 0; T t{}; (void)ref(v, t); if (g_missing || g_unknown) sym_end(); if (floats) sym_assume(small(v)); agree<T>(text(v)); }
#define X(n, ...) HARNESS(h_shape_##n) { shaped<__VA_ARGS__>(std::is_floating_point_v<__VA_ARGS__> || std::is_same_v<__VA_ARGS__, V<double>>); }
SCALARS(X) CONTAINERS(X) OBJECTS(X)
X(vO3, V<O3>) X(vO1, V<O1>) X(vdbl, V<double>) X(mnamed, M<Named>) X(adate, A<Date, 1>) X(vsp, V<SP<S>>) X(sv, std::set<V<bool>>) X(mm, M<M<bool>>)
#undef X
// optionals and null
template <class T> static void nul() { JV v; v.k = JV::Obj; v.keys = { "a" }; v.a = { odd() }; agree<T>(text(v)); }
HARNESS(h_null_OO) { nul<OO>(); } HARNESS(h_null_O1) { nul<O1>(); } struct ON { std::nullptr_t a = nullptr; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a); } bool operator==(const ON&) const { return true; } }; HARNESS(h_null_ON) { nul<ON>(); }
struct OP { SP<bool> a; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a); } bool operator==(const OP& o) const { return eq(a, o.a); } }; HARNESS(h_null_OP) { nul<OP>(); }
// text with one arbitrary byte at any position, or cut off at any position
#ifndef DAMAGE
#define DAMAGE 1
#endif
template <class T> static void damaged(std::string s) { unsigned k = 0; for (int i = 0; i < DAMAGE; i++) { k += sym_choice((unsigned)s.size() - k, "pos"); char c; sym_bytes(&c, 1, "byte"); sym_assume(c != 0); s[k] = c; } if (sym_choice(2, "cut")) s.resize(k); agree<T>(s); }
HARNESS(h_text_bool) { damaged<bool>("true"); } HARNESS(h_text_int) { damaged<int>("-120"); } HARNESS(h_text_uint) { damaged<unsigned>("4294967290"); } HARNESS(h_text_str) { damaged<S>("\"a\\u00e9b\""); } HARNESS(h_text_vec) { damaged<V<bool>>("[true, false]"); } HARNESS(h_text_vint) { damaged<V<unsigned char>>("[1,22]"); } HARNESS(h_text_map) { damaged<M<bool>>("{\"k\":true}"); } HARNESS(h_text_date) { damaged<Date>("\"2023-02-28\""); } HARNESS(h_text_bytes) { damaged<byte_vector>("\"AQI=\""); } HARNESS(h_text_tuple) { damaged<T<bool, S>>("[true,\"x\"]"); } HARNESS(h_text_null) { damaged<V<std::nullptr_t>>("[null]"); } HARNESS(h_text_set) { damaged<std::set<S>>("[\"a\",\"b\"]"); }
// arbitrary short texts
#ifndef TXT
#define TXT 4
#endif
template <class T> static void any() { unsigned n = sym_choice(TXT + 1, "len"); std::string s = sym_string(n, "text"); for (char c : s) sym_assume(c != 0); agree<T>(s); }
HARNESS(h_any_bool) { any<bool>(); } HARNESS(h_any_schar) { any<signed char>(); } HARNESS(h_any_str) { any<S>(); } HARNESS(h_any_vint) { any<V<short>>(); } HARNESS(h_any_vstr) { any<V<S>>(); } HARNESS(h_any_mint) { any<M<int>>(); } HARNESS(h_any_vv) { any<V<V<bool>>>(); }
// large documents
template <class T> static void large(const JV& v) { g_missing = g_unknown = 0; T t{}; (void)ref(v, t); if (g_missing || g_unknown) sym_end(); agree<T>(text(v)); }
#define X(n, ...) HARNESS(h_long_##n) { large<__VA_ARGS__>(longTree<__VA_ARGS__>()); }
LONGC(X) LONGO(X)
#undef X
// sizes up to 300, strings and keys of up to 5000 bytes
#define X(n, l, ...) HARNESS_SW(h_sweep_##n) { large<__VA_ARGS__>(sweepTree<__VA_ARGS__>(l)); }
SWEEPC(X) SWEEPO(X)
#undef X
#define X(n, k, ...) HARNESS_SW(h_len_##n) { large<__VA_ARGS__>(lenTree<__VA_ARGS__>(k)); }
LENC(X) LENO(X)
#undef X
