// C20: a variant is written as the value it holds and read as the first alternative that fits.
#include "long.hpp"
template <class... Ts> struct Gen<std::variant<Ts...>> { using W = std::variant<Ts...>; static W make() { unsigned k = sym_choice(sizeof...(Ts), "alternative"); W w; bool done = ((pick<Ts>(w, k)) || ...); (void)done; return w; } template <class T> static bool pick(W& w, unsigned& k) { if (k--) return false; w.template emplace<T>(Gen<T>::make()); return true; } };
template <class... Ts> struct Eq<std::variant<Ts...>> { using W = std::variant<Ts...>; static bool f(const W& a, const W& b) { if (a.index() != b.index()) return false; return g(a, b, std::index_sequence_for<Ts...>()); } template <size_t... I> static bool g(const W& a, const W& b, std::index_sequence<I...>) { return ((a.index() == I && eq(std::get<I>(a), std::get<I>(b))) || ...); } };
// the first alternative that fits, objects with every required member only
template <class... Ts> struct Ref<std::variant<Ts...>> { using W = std::variant<Ts...>; static bool read(const JV& v, W& o) { return (one<Ts>(v, o) || ...); } template <class T> static bool one(const JV& v, W& o) { unsigned m = g_missing; T t{}; bool r = ref<T>(v, t) && g_missing == m; g_missing = m; if (r) o.template emplace<T>(std::move(t)); return r; } };
template <class... Ts> struct Shape<std::variant<Ts...>> { static JV make(Dev& d) { unsigned k = sym_choice(sizeof...(Ts), "alternative"); JV v; (void)((k-- ? false : (v = shape<Ts>(d), true)) || ...); return v; } };
using W1 = std::variant<bool, S, V<short>, O2, std::nullptr_t>; using W2 = std::variant<unsigned char, short, long long, double>; using W3 = std::variant<O2, O1, OO>; using W4 = std::variant<V<V<bool>>, V<S>, M<short>, A<bool, 2>>; using W5 = std::variant<Date, timestamp, Named, byte_vector, S>; using W6 = std::variant<UP<bool>, SP<S>, V<UP<short>>>; using W7 = std::variant<std::variant<bool, S>, short, V<std::variant<bool, short>>>; using W8 = std::variant<T<bool, S>, P<short, bool>, T<S>, A<bool, 3>>; using W9 = std::variant<PlainEnum, bool, M<M<bool>>>; using W10 = std::variant<O2, O3, OD, V<OD>>; using W11 = std::variant<OD, M<bool>, V<S>>; using W12 = std::variant<V<bool>, O2o>;
template <class W> struct Hold { bool x = false; W w; std::optional<W> o; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(x) & MEMBER_VARIABLE(w) & MEMBER_VARIABLE(o); } };
template <class C, class G> static void read(const JV& v, bool ok, const G& good) { std::string s = text(v); { C c{}; bool r = deserialize(s, c); sym_assert(r == ok, "a variant is accepted exactly when one of its alternatives fits"); if (r) sym_assert(good(c), "a variant is read as the first alternative that fits"); } { Document d; dtree(v, d); C c{}; bool r = deserialize(d, c); sym_assert(r == ok && (!r || good(c)), "a variant in a document is read as the first alternative that fits"); } { bool r = true; try { C c = deserialize<C>(s); sym_assert(good(c), "the value-returning reader gives the same variant"); } catch (const JsonDeserializationError&) { r = false; } sym_assert(r == ok, "an exception is thrown exactly when no alternative fits"); } sym_reach(ok ? "fits" : "rejected"); }
static JV arr(std::vector<JV> a) { JV v; v.k = JV::Arr; v.a = std::move(a); return v; } static JV obj(std::vector<std::string> k, std::vector<JV> a) { JV v; v.k = JV::Obj; v.keys = std::move(k); v.a = std::move(a); return v; } static JV con(bool b) { JV v; v.k = JV::Bool; v.b = b; return v; }
template <class W> static void accept() { Dev d{ 1 }; JV v = shape<W>(d); g_missing = 0; W want{}; bool ok = ref(v, want); auto is = [&](const W& w) { return eq(w, want); }; JV t = con(true);
  switch (sym_choice(8, "where")) { case 0: read<W>(v, ok, [&](const W& w) { return is(w); }); break; case 1: read<V<W>>(arr({ v, v }), ok, [&](const V<W>& w) { return w.size() == 2 && is(w[0]) && is(w[1]); }); break; case 2: read<M<W>>(obj({ "k" }, { v }), ok, [&](const M<W>& w) { return w.size() == 1 && is(w.at("k")); }); break; case 3: read<T<bool, W, bool>>(arr({ t, v, t }), ok, [&](const T<bool, W, bool>& w) { return is(std::get<1>(w)); }); break; case 4: if constexpr (std::is_copy_assignable_v<W>) read<A<W, 1>>(arr({ v }), ok, [&](const A<W, 1>& w) { return is(w[0]); }); break; case 5: read<Hold<W>>(obj({ "x", "w" }, { t, v }), ok, [&](const Hold<W>& h) { return is(h.w) && !h.o && h.x; }); break; case 6: read<Hold<W>>(obj({ "o", "w", "x" }, { v, v, t }), ok, [&](const Hold<W>& h) { return is(h.w) && h.o && is(*h.o) && h.x; }); break; case 7: read<P<bool, W>>(arr({ t, v }), ok, [&](const P<bool, W>& w) { return is(w.second); }); break; } }
// written as the value it holds; read back as the first alternative that fits its text
template <class W> static void trip() { W w = Gen<W>::make(); if constexpr (std::is_same_v<W, W2>) if (w.index() == 3) w = 2.25; std::string s, t; sym_assert(write_to_string(w, s), "a variant is written"); std::visit([&](const auto& x) { sym_assert(write_to_string(x, t), "an alternative is written"); }, w); sym_assert(s == t, "a variant is written as the value it holds"); Document d; sym_assert(serialize_to_document(w, d) && document_to_string(d) == s, "a variant is serialized as the value it holds"); W r{}, q{}; sym_assert(deserialize(s, r) && deserialize(d, q) && eq(r, q), "a written variant is read"); sym_assert(r.index() <= w.index(), "no later alternative is taken than the one that was written"); if (r.index() == w.index()) sym_assert(eq(r, w), "a written variant is read back unchanged"); std::string u; sym_assert(write_to_string(r, u), "written again"); sym_reach("round trip"); }
// reading replaces whatever alternative was held before
template <class W> static void refill() { W w = Gen<W>::make(); Dev d{ 0 }; JV v = shape<W>(d); g_missing = 0; W want{}; bool ok = ref(v, want); bool r = deserialize(text(v), w); sym_assert(r == ok && (!ok || eq(w, want)), "the alternative held before does not matter"); V<W> l; l.push_back(std::move(w)); r = deserialize(text(arr({ v, v, v })), l); sym_assert(r == ok && (!ok || (l.size() == 3 && eq(l[0], want) && eq(l[2], want))), "a list of variants is replaced"); sym_reach(ok ? "fits" : "rejected"); }
#define X(n) HARNESS(h_accept_##n) { accept<n>(); } HARNESS(h_trip_##n) { trip<n>(); } HARNESS(h_refill_##n) { refill<n>(); }
X(W1) X(W2) X(W3) X(W4) X(W5) X(W6) X(W7) X(W8) X(W9) X(W10) X(W11) X(W12)
// numbers at every boundary
HARNESS(h_number) { JV v; unsigned k = sym_choice(2, "kind"); if (k) v = leaf(JV::Int); else { v.k = JV::Dbl; v.d = sym_val<double>("d"); sym_assume(v.d - v.d == 0); } W2 w; sym_assert(deserialize(text(v), w), "every number fits"); if (k) { int64_t i = v.i; unsigned want = i >= 0 && i < 256 ? 0 : i >= -32768 && i < 32768 ? 1 : 2; sym_assert(w.index() == want, "a number is read as the first type that represents it"); if (want == 0) sym_assert(std::get<0>(w) == i, "value"); if (want == 1) sym_assert(std::get<1>(w) == i, "value"); if (want == 2) sym_assert(std::get<2>(w) == i, "value"); } else sym_assert(w.index() == 3, "a fraction is read as a floating-point number"); sym_reach("number"); }
// an alternative that fails late leaves nothing behind
struct Late { V<S> a; S b; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(b); } }; struct Late2 { V<S> a; std::optional<bool> c; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(c); } };
HARNESS(h_late) { using W = std::variant<Late, Late2, M<V<S>>>; S x = Gen<S>::make(); JV s; s.k = JV::Str; s.s = x; JV b; unsigned k = sym_choice(4, "kind"); b = k == 0 ? s : k == 1 ? leaf(JV::Bool) : k == 2 ? arr({ s }) : leaf(JV::Int); bool c = sym_choice(2, "name"); JV v = obj({ "a", c ? "c" : "b" }, { arr({ s, s }), b }); V<W> w; bool r = deserialize(text(arr({ v, v })), w); int want = !c && k == 0 ? 0 : c ? (k == 1 ? 1 : k == 2 ? 2 : -1) : 1; sym_assert(r == (want >= 0), "a late misfit moves on to the next alternative"); if (r) { sym_assert(w.size() == 2 && w[1].index() == (size_t)want, "the alternative that fits as a whole is taken"); const V<S>* a = want == 0 ? &std::get<0>(w[1]).a : want == 1 ? &std::get<1>(w[1]).a : &std::get<2>(w[1]).at("a"); sym_assert(a->size() == 2 && (*a)[0] == x && (*a)[1] == x, "nothing of an alternative that failed is left"); } sym_reach(r ? "fits" : "rejected"); }
// nor does an alternative that failed leave objects behind that references could name
struct Num { short v = 0; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(v); } };
HARNESS(h_stale) { using Q = SP<Num>; using W = std::variant<P<Q, short>, P<Num, S>, T<Q, bool, Q>, M<Q>>; auto str = [](const char* s) { JV v; v.k = JV::Str; v.s = s; return v; }; static const char* const R[] = { "/0/0", "/0", "/0/1", "/1", "/0/k" }; unsigned to = sym_choice(5, "target");
  short n = sym_val<short>("n"); JV num; num.k = JV::Int; num.i = n; JV o = obj({ "v" }, { num }); JV v; int want = -1; bool named = false; unsigned form = sym_choice(4, "form");
  if (form == 0) { unsigned k = sym_choice(4, "second"); JV x = k == 0 ? leaf(JV::Int) : k == 1 ? str("s") : k == 2 ? con(true) : JV(); v = arr({ o, x }); if (k == 0 && x.i >= -32768 && x.i < 32768) want = 0, named = to == 0; if (k == 1) want = 1; }
  else if (form == 1) { bool good = sym_choice(2, "inner target"); v = arr({ o, con(false), obj({ "$ref" }, { str(good ? "/0/0" : "/1/0") }) }); if (good) want = 2, named = to == 0; }
  else if (form == 2) { bool bad = sym_choice(2, "misfit"); v = obj({ "k", "l" }, { o, bad ? con(true) : o }); if (!bad) want = 3, named = to == 4; }
  else { v = arr({ o, obj({ "$ref" }, { str("/0/0") }) }); }
  JV r = obj({ "$ref" }, { str(R[to]) }); bool ok = want >= 0 && named; auto first = [&](const W& w) { return want == 0 ? std::get<0>(w).first : want == 2 ? std::get<0>(std::get<2>(w)) : want == 3 ? std::get<3>(w).at("k") : Q(); }; auto same = [&](const W& w, const Q& p) { return w.index() == (size_t)want && p && p == first(w) && p->v == n; };
  switch (sym_choice(4, "where")) { case 0: read<P<W, Q>>(arr({ v, r }), ok, [&](const P<W, Q>& p) { return same(p.first, p.second); }); break; case 1: { JV five; five.k = JV::Int; five.i = 5; read<V<W>>(arr({ v, arr({ r, five }) }), ok, [&](const V<W>& l) { return l.size() == 2 && l[1].index() == 0 && same(l[0], std::get<0>(l[1]).first); }); break; } case 2: { using W2 = std::variant<std::variant<V<bool>, W>, S>; read<P<W2, Q>>(arr({ v, r }), ok, [&](const P<W2, Q>& p) { return p.first.index() == 0 && std::get<0>(p.first).index() == 1 && same(std::get<1>(std::get<0>(p.first)), p.second); }); break; } case 3: { using W3 = std::variant<P<W, bool>, P<W, Q>>; /* the inner alternative fits, the outer one does not at first */ read<W3>(arr({ v, r }), ok, [&](const W3& w) { return w.index() == 1 && same(std::get<1>(w).first, std::get<1>(w).second); }); break; } } }
// long lists of variants, and alternatives that fail after many elements
static unsigned spot(unsigned n) { unsigned k = sym_choice(n < 3 ? n : 3, "focus"); return k == 0 ? n - 1 : k == 1 ? 0 : n / 2; }
static JV any6(int& alt) { unsigned k = sym_choice(6, "kind"); JV v; switch (k) { case 0: v = leaf(JV::Int); alt = v.i >= -32768 && v.i < 32768 ? 0 : -1; break; case 1: v.k = JV::Str; v.s = sym_string(1, "char"); alt = 1; break; case 2: v = arr({ leaf(JV::Bool) }); alt = 2; break; case 3: v = obj({ "k" }, { leaf(JV::Bool) }); alt = 3; break; case 4: v = arr({ JV() }); alt = -1; break; default: alt = -1; } return v; }
HARNESS(h_list) { using W = std::variant<short, S, V<bool>, M<bool>>; unsigned n = sweepSize(); int alt = 0; JV f; unsigned k = n; if (n) { k = spot(n); f = any6(alt); } JV l; l.k = JV::Arr; for (unsigned i = 0; i < n; i++) { JV e; if (i == k) e = f; else switch (i % 4) { case 0: e.k = JV::Int; e.i = (int)i - 100; break; case 1: e.k = JV::Str; e.s = std::string(i % 40, 's'); break; case 2: e = arr(V<JV>(i % 5, con(i & 8))); break; case 3: e = obj({ "k" }, { con(i & 16) }); } l.a.push_back(e); }
  auto good = [&](const V<W>& w) { if (w.size() != n) return false; for (unsigned i = 0; i < n; i++) { if (i == k) { W want{}; bool ok = ref(f, want); if (!ok || !eq(w[i], want)) return false; } else { if (w[i].index() != i % 4) return false; if (i % 4 == 0 && std::get<0>(w[i]) != (int)i - 100) return false; if (i % 4 == 1 && std::get<1>(w[i]).size() != i % 40) return false; if (i % 4 == 2 && std::get<2>(w[i]).size() != i % 5) return false; } } return true; };
  read<V<W>>(l, alt >= 0, good); }
HARNESS(h_fail) { using W = std::variant<V<short>, V<S>, M<S>, V<std::variant<S, bool>>>; unsigned n = sweepSize(); if (!n) n = 12; unsigned k = spot(n); bool str = sym_choice(2, "strings"); int alt = -1; JV l; l.k = JV::Arr; unsigned kind = sym_choice(4, "kind"); for (unsigned i = 0; i < n; i++) { JV e; if (i == k) e = kind == 0 ? leaf(JV::Int) : kind == 1 ? leaf(JV::Bool) : kind == 2 ? JV() : (e.k = JV::Str, e.s = "t", e); else if (str) { e.k = JV::Str; e.s = "s"; } else { e.k = JV::Int; e.i = i; } l.a.push_back(e); }
  bool alone = n == 1; if (kind == 0 && l.a[k].i >= -32768 && l.a[k].i < 32768) alt = alone || !str ? 0 : -1; if (kind == 1) alt = alone || str ? 3 : -1; if (kind == 3) alt = alone || str ? 1 : -1;
  auto good = [&](const W& w) { if (w.index() != (size_t)alt) return false; if (alt == 0) return std::get<0>(w).size() == n && std::get<0>(w)[k] == l.a[k].i && (alone || k == 0 || std::get<0>(w)[0] == 0); if (alt == 1) return std::get<1>(w).size() == n && std::get<1>(w)[k] == "t"; return std::get<3>(w).size() == n && std::get<3>(w)[k].index() == 1 && std::get<1>(std::get<3>(w)[k]) == l.a[k].b; };
  read<W>(l, alt >= 0, good); read<P<W, W>>(arr({ l, l }), alt >= 0, [&](const P<W, W>& p) { return good(p.first) && good(p.second); }); }
#define TAG(N) struct K##N { bool m##N = false; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(m##N); } };
TAG(0) TAG(1) TAG(2) TAG(3) TAG(4) TAG(5) TAG(6) TAG(7) TAG(8) TAG(9) TAG(10) TAG(11)
HARNESS(h_wide) { using W = std::variant<K0, K1, K2, K3, K4, K5, K6, K7, K8, K9, K10, K11>; unsigned i = sym_choice(13, "first"), j = sym_choice(13, "second"); bool odd = sym_choice(2, "misfit"); auto nm = [](unsigned i) { return "m" + std::to_string(i); }; JV b = leaf(JV::Bool), c = odd ? JV() : con(true); V<S> ks{ nm(i) }; V<JV> vs{ b }; if (j != i) { ks.push_back(nm(j)); vs.push_back(c); } int want = i < 12 ? (int)i : -1; if (j != i && j < 12 && !odd && (want < 0 || (int)j < want)) want = (int)j; bool val = want >= 0 && (unsigned)want == i ? b.b : true;
  read<W>(obj(ks, vs), want >= 0, [&](const W& w) { if (w.index() != (size_t)want) return false; std::string s = write_to_string(w); return s == "{\"" + nm(want) + "\":" + (val ? "true}" : "false}"); }); }
// float before or after double: the first that accepts the number alone
HARNESS(h_floats) { Document d; if (sym_choice(2, "kind")) { double x = sym_val<double>("d"); sym_assume(x - x == 0); d.SetDouble(x); } else d.SetInt64(sym_val<int64_t>("i")); float f = 0; bool ok = deserialize(d, f); double e = 0; sym_assert(deserialize(d, e), "a double takes every number"); { std::variant<S, float, double> w; sym_assert(deserialize(d, w) && w.index() == (ok ? 1 : 2) && (ok ? std::get<1>(w) == f : std::get<2>(w) == e), "float comes first"); } { std::variant<bool, double, float> w; sym_assert(deserialize(d, w) && w.index() == 1 && std::get<1>(w) == e, "double comes first"); } { std::variant<V<float>, V<double>> w; Document l; l.SetArray(); rapidjson::Value a, b; a.CopyFrom(d, l.GetAllocator()); b.SetDouble(0.5); l.PushBack(b, l.GetAllocator()); l.PushBack(a, l.GetAllocator()); sym_assert(deserialize(l, w) && w.index() == (ok ? 0 : 1), "a list of floats comes first"); } sym_reach(ok ? "float" : "double"); }
