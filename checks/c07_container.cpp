// C07: containers round-trip, and a JSON value is read into a container exactly when its shape fits.
#include "long.hpp"
template <class C> static void trip() { C c = Gen<C>::make(); std::string s; sym_assert(write_to_string(c, s), "a container is written");
  { C w{}; sym_assert(parse(s, w) && eq(c, w), "the parser returns the written container"); } { C w{}; sym_assert(deserialize(s, w) && eq(c, w), "the deserializer returns the written container"); }
  Document d; sym_assert(serialize_to_document(c, d), "a container is stored"); { C w{}; sym_assert(deserialize(d, w) && eq(c, w), "the document returns the stored container"); } { C w{}; sym_assert(parse(document_to_string(d), w) && eq(c, w), "the text of the document reads back"); } sym_reach("round trip"); }
template <class C> static void shaped(const JV& v) { C want{}; bool ok = ref(v, want); std::string s = text(v);
  { C w{}; bool r = parse(s, w); sym_assert(r == ok, "the parser accepts exactly the fitting arrays and objects"); if (ok) sym_assert(eq(w, want), "the parser returns every element in place"); }
  { C w{}; bool r = deserialize(s, w); sym_assert(r == ok, "the deserializer accepts exactly the fitting arrays and objects"); if (ok) sym_assert(eq(w, want), "the deserializer returns every element in place"); }
  { Document d; dtree(v, d); C w{}; bool r = deserialize(d, w); sym_assert(r == ok, "fitting documents are accepted and no others"); if (ok) sym_assert(eq(w, want), "every element of the document is returned in place"); }
  sym_print("ok", ok); sym_reach(ok ? "fits" : "rejected"); }
template <class C> static void wild() { shaped<C>(tree(DEPTH)); }
template <class C> static void near() { Dev d{ 1 }; shaped<C>(shape<C>(d)); }
#define H(n, ...) HARNESS(h_trip_##n) { trip<__VA_ARGS__>(); } HARNESS(h_wild_##n) { wild<__VA_ARGS__>(); } HARNESS(h_near_##n) { near<__VA_ARGS__>(); }
H(vint, V<int>) H(vbool, V<bool>) H(vstr, V<S>) H(sint, std::set<int>) H(sbool, std::set<bool>) H(sstr, std::set<S>) H(aint, A<int, 2>) H(abool3, A<bool, 3>) H(pair, P<short, S>) H(tuple, T<int, bool, S>) H(tuple1, T<S>) H(mint, M<int>) H(mstr, M<S>) H(umbool, UM<bool>)
H(vv, V<V<short>>) H(va, V<A<bool, 2>>) H(vp, V<P<bool, S>>) H(vm, V<M<bool>>) H(mv, M<V<S>>) H(mm, M<M<bool>>) H(av, A<V<bool>, 2>) H(sv, std::set<V<bool>>) H(sp, std::set<P<bool, bool>>) H(tt, T<T<bool, S>, V<bool>>) H(pm, P<M<bool>, A<bool, 1>>) H(vvv, V<V<V<bool>>>) H(umv, UM<V<bool>>) H(ma, M<A<S, 2>>) H(vt, V<T<bool, bool, bool>>) H(vst, V<std::set<bool>>)
// many elements: everything concrete but one element
template <class C> static void large(const JV& v) { shaped<C>(v); C c{}; if (ref(v, c)) { std::string s, t = text(v); sym_assert(write_to_string(c, s), "a large container is written"); C w{}; sym_assert(parse(s, w) && eq(c, w), "the parser returns the written large container"); C x{}; sym_assert(deserialize(s, x) && eq(c, x), "the deserializer returns the written large container"); Document d; C y{}; sym_assert(serialize_to_document(c, d) && deserialize(d, y) && eq(c, y), "the document returns the large container"); } }
// a document read into a container that already has elements
template <class C> static void refill() { JV v = sym_choice(2, "large") ? longTree<C>() : [] { Dev d{ 0 }; return shape<C>(d); }(); std::string s = text(v); C want = longValue<C>(5, 4), w = longValue<C>(5, 4); bool ok = ref(v, want), r = deserialize(s, w); sym_assert(r == ok, "whether a document fits does not depend on what the container held before"); if (ok) sym_assert(eq(w, want), "reading a document replaces what the container held before"); sym_reach(ok ? "fits" : "rejected"); }
#define X(n, ...) HARNESS(h_long_##n) { large<__VA_ARGS__>(longTree<__VA_ARGS__>()); }
LONGC(X)
#undef X
#define X(n, ...) HARNESS(h_refill_##n) { refill<__VA_ARGS__>(); }
X(vint, V<int>) X(vbool, V<bool>) X(vstr, V<S>) X(sint, std::set<int>) X(sstr, std::set<S>) X(aint, A<int, 3>) X(pair, P<V<bool>, S>) X(tuple, T<int, V<S>, M<bool>>) X(mint, M<int>) X(mv, M<V<S>>) X(umstr, UM<S>) X(vv, V<V<bool>>) X(str, S) X(bytes, byte_vector)
#undef X
// sizes up to 300, strings and keys of up to 5000 bytes
#define X(n, l, ...) HARNESS_SW(h_sweep_##n) { large<__VA_ARGS__>(sweepTree<__VA_ARGS__>(l)); }
SWEEPC(X)
#undef X
#define X(n, k, ...) HARNESS_SW(h_len_##n) { large<__VA_ARGS__>(lenTree<__VA_ARGS__>(k)); }
LENC(X)
#undef X
// a container that held m elements, m and the new size from lists
template <class C> static void resize(unsigned levels) { static const unsigned PRE[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 33, 65, 130 }; unsigned m = PRE[sym_choice(levels > 1 ? 7 : 14, "held")]; JV v = sweepTree<C>(levels, levels > 1 ? 11 : 65); if (levels > 1) g_in = 5; C w = longValue<C>(5, m), want = longValue<C>(5, m), x = longValue<C>(5, m); g_in = 3; bool ok = ref(v, want), r = deserialize(text(v), w); sym_assert(r == ok, "whether a document fits does not depend on what the container held before"); if (ok) sym_assert(eq(w, want), "reading a document replaces what the container held before"); Document d; dtree(v, d); r = deserialize(d, x); sym_assert(r == ok && (!ok || eq(x, want)), "reading a document value replaces what the container held before"); sym_reach(ok ? "fits" : "rejected"); }
#define X(n, l, ...) HARNESS_SW(h_resize_##n) { resize<__VA_ARGS__>(l); }
SWEEPC(X)
#undef X
