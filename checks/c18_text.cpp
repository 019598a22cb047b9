// C18: whatever the text, a reader rejects it or returns an object that can be written and read again.
#include "long.hpp"
#ifndef TXT
#define TXT 3
#endif
template <class F> static bool quiet(F f) { try { return f(); } catch (...) { sym_assert(false, "reading an arbitrary text does not throw"); return false; } }
template <class T> static void again(const T& v) { std::string o; sym_assert(write_to_string(v, o), "an object that was read can be written"); T x{}, y{}; sym_assert(parse(o, x) && eq(x, v), "an object that was read and written is parsed again"); sym_assert(deserialize(o, y) && eq(y, v), "an object that was read and written is deserialized again"); Document d; T z{}; sym_assert(serialize_to_document(v, d) && deserialize(d, z) && eq(z, v), "an object that was read survives in a document"); }
template <class T> static void hostile(const std::string& s) { bool p, d, i; { T a{}; p = quiet([&] { return parse(s, a); }); if (p) again(a); } { T b{}; d = quiet([&] { return deserialize(s, b); }); if (d) again(b); T c{}; std::string t = s; i = quiet([&] { return deserialize(std::move(t), c); }); sym_assert(d == i && (!d || eq(b, c)), "reading in place gives the same result"); }
  { bool q = true; try { T r = parse<T>(s); } catch (const JsonParseError& e) { q = false; sym_assert(e.offset <= s.size(), "an offset lies inside the text"); } sym_assert(p == q, "an exception is thrown exactly when the text is rejected"); } sym_reach(p || d ? "accepted" : "rejected"); }
template <class T> static void any() { unsigned n = sym_choice(TXT + 1, "len"); std::string s = sym_string(n, "text"); for (char c : s) sym_assume(c != 0); hostile<T>(s); }
#define X(n, ...) HARNESS(h_any_##n) { any<__VA_ARGS__>(); }
X(bool, bool) X(schar, signed char) X(ushort, unsigned short) X(int, int) X(ulong, unsigned long) X(str, S) X(bytes, byte_vector) X(time, timestamp) X(date, Date) X(named, Named) X(plain, PlainEnum) X(null, std::nullptr_t) CONTAINERS(X) OBJECTS(X)
#undef X
// two neighbouring bytes (or one) replaced by any, or any byte inserted
template <class T> static void window(std::string s, bool two = true) { unsigned n = (unsigned)s.size(); char c[2]; sym_bytes(c, 2, "bytes"); sym_assume(c[0] != 0); sym_assume(c[1] != 0); if (sym_choice(2, "insert")) { unsigned k = sym_choice(n + 1, "pos"); s.insert(k, 1, c[0]); } else { unsigned k = sym_choice(n - 1, "pos"); s[k] = c[0]; if (two) s[k + 1] = c[1]; } hostile<T>(s); }
#define W(n, txt, ...) HARNESS(h_win_##n) { window<__VA_ARGS__>(txt); }
W(vint, "[7,-12]", V<int>) W(vstr, "[\"a\",\"\\n\"]", V<S>) W(esc, "\"\\u00e9\"", S) W(sur, "\"\\ud83d\\ude00\"", S) W(map, "{\"k\":true}", M<bool>) W(O2, "{\"a\":true,\"b\":\"x\"}", O2)  W(vO1, "[{\"a\":1}]", V<O1>)  W(aint, "[10,20]", A<int, 2>) W(bytes, "\"AQID\"", byte_vector) W(named, "[\"b\"]", V<Named>) W(set, "[\"a\",\"b\"]", std::set<S>) W(sp, "[{\"a\":true,\"b\":\"\"},{\"a\":false,\"b\":\"\"}]", V<SP<O2>>) W(up, "{\"k\":[true]}", M<UP<V<bool>>>) 
#define W1(n, txt, ...) HARNESS(h_win_##n) { window<__VA_ARGS__>(txt, false); }
W1(O3, "{\"a\":true,\"b\":false,\"c\":\"\"}", O3) W1(tuple, "[1,\"2023-02-28\",\"\"]", T<int, Date, S>) W1(date, "\"2023-02-28\"", Date) W1(time, "\"2023-02-28T23:59:59Z\"", timestamp) W1(ODer, "{\"a\":true,\"c\":{\"a\":-1},\"d\":[false]}", ODer) W1(msp, "{\"k\":\"\\u0041\",\"l\":\"\"}", M<SP<S>>)
