// C12: writing directly and writing through a document give the same text; the document does not depend on the object.
#include "long.hpp"
#include <persistence/dictionary.hpp>
template <class T> static void same(const T& v) { std::string s = "x"; Document d; bool a = write_to_string(v, s), b = serialize_to_document(v, d); sym_assert(a == b, "an object can be written exactly when it can be serialized"); if (a) { std::string t = document_to_string(d); sym_assert(s.size() == t.size() && std::memcmp(s.data(), t.data(), s.size()) == 0, "direct writing and writing through a document give the same text"); Document e; e.Parse(s.data(), s.size()); sym_assert(!e.HasParseError(), "what is written is well-formed"); } sym_reach(a ? "written" : "refused"); }
// the document owns its content: it is read after the object and every temporary is gone
template <class T> static void owned(T v) { std::string s; sym_assert(write_to_string(v, s), "written"); Document d; { auto p = std::make_unique<T>(std::move(v)); sym_assert(serialize_to_document(*p, d), "serialized"); } std::string t = document_to_string(d); sym_assert(s.size() == t.size() && std::memcmp(s.data(), t.data(), s.size()) == 0, "a document does not depend on the object it was made from"); sym_reach("owned"); }
#define X(n, ...) HARNESS(h_##n) { same<__VA_ARGS__>(Gen<__VA_ARGS__>::make()); }
SCALARS(X) CONTAINERS(X) OBJECTS(X) X(Every, Every) X(O5, O5) X(vO5, V<O5>) X(char, char) X(short, short) X(uint, unsigned) X(long, long) X(ll, long long) X(ull, unsigned long long) X(vdbl, V<double>) X(adbl, A<float, 2>) X(mdbl, M<double>) X(tdbl, T<double, bool, float>)
#undef X
#define X(n, ...) HARNESS(h_own_##n) { owned<__VA_ARGS__>(Gen<__VA_ARGS__>::make()); }
X(str, S) X(bytes, byte_vector) X(time, timestamp) X(date, Date) X(named, Named) X(vstr, V<S>) X(mv, M<V<bool>>) X(umstr, UM<S>) X(Every, Every) X(O5, O5) X(msp, M<SP<S>>)
#undef X
static S str() { return Gen<S>::make(); }
HARNESS(h_view) { S s = str(); std::string_view v(s); switch (sym_choice(6, "type")) { case 0: same(v); break; case 1: same(std::string_view()); break; case 2: same(literal_dict<bool>{ { v, true }, { "k", false } }); break; case 3: same(literal_map<std::string_view>{ { v, v } }); break; case 4: same(literal_unordered_map<int>{ { v, sym_val<int>("n") } }); break; case 5: same(V<std::string_view>{ v, "", v }); break; } sym_reach("views"); }
HARNESS(h_dict) { string_dict<V<int>> d; unsigned n = sym_choice(3, "n"); for (unsigned i = 0; i < n; i++) { S k = str(); d.emplace_back(k, Gen<V<int>>::make()); } same(d); }
HARNESS(h_chars) { char c[3]; sym_bytes(c, 2, "chars"); c[2] = 0; same(c); char e[1] = { 0 }; same(e); sym_reach("chars"); }
HARNESS(h_variant) { using W = std::variant<bool, double, S, V<int>, O2>; unsigned k = sym_choice(5, "alt"); W w; if (k == 0) w = Gen<bool>::make(); if (k == 1) w = Gen<double>::make(); if (k == 2) w = str(); if (k == 3) w = Gen<V<int>>::make(); if (k == 4) w = O2::gen(); same(V<W>{ w, true }); same(T<W>{ w }); }
HARNESS(h_raw) { int n = sym_val<int>("n"); const O2 o = O2::gen(); const int* p = &n; same(p); same(T<const O2*, bool>{ &o, true }); V<const O2*> v{ &o, &o }; same(v); sym_reach("raw"); }
HARNESS(h_shared) { auto p = std::make_shared<O2>(O2::gen()); auto q = sym_choice(2, "same") ? p : std::make_shared<O2>(O2::gen()); M<V<SP<O2>>> m; m[str()] = { p, q }; m["~/"] = { q }; same(T<M<V<SP<O2>>>, SP<O2>>{ m, p }); }
HARNESS(h_own_shared) { auto p = std::make_shared<O2>(O2::gen()); M<V<SP<O2>>> m; m[str()] = { p }; m["~/"] = { p }; owned(T<M<V<SP<O2>>>, SP<O2>>{ m, p }); }
// a document that is written is the text that was parsed
HARNESS(h_doc) { JV v = tree(2, 2); Document d; dtree(v, d); std::string s = document_to_string(d), t = text(v); sym_assert(s == t, "a document is written with every element in order"); Document e = string_to_document(s); sym_assert(!e.HasParseError() && document_to_string(e) == s, "a parsed document is written as the same text"); sym_reach("doc"); }
// a document parsed from a temporary string does not depend on it
HARNESS(h_doc_temp) { Dev dv{ 0 }; JV v = shape<T<S, M<S>, V<S>>>(dv); std::string s = text(v); Document d = string_to_document(std::string(s)); sym_assert(!d.HasParseError() && document_to_string(d) == s, "a document parsed from a temporary string does not depend on it"); T<S, M<S>, V<S>> w, x; sym_assert(deserialize(d, w) && ref(v, x) && eq(w, x), "a document parsed from a temporary string is read"); sym_reach("temp"); }
// large values
template <class T> static void large(const JV& v) { T t{}; g_missing = 0; if (!ref(v, t) || g_missing) sym_end(); same(t); owned(std::move(t)); }
#define X(n, ...) HARNESS(h_long_##n) { large<__VA_ARGS__>(longTree<__VA_ARGS__>()); }
LONGC(X) LONGO(X)
#undef X
// sizes up to 300, strings and keys of up to 5000 bytes
#define X(n, l, ...) HARNESS_SW(h_sweep_##n) { large<__VA_ARGS__>(sweepTree<__VA_ARGS__>(l)); }
SWEEPC(X) SWEEPO(X)
#undef X
#define X(n, k, ...) HARNESS_SW(h_len_##n) { large<__VA_ARGS__>(lenTree<__VA_ARGS__>(k)); }
LENC(X) LENO(X)
#undef X
