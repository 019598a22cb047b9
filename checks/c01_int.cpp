// C01: integers survive every write path / read path pair.
#include "common.hpp"
#include "sweep.hpp"
#ifndef REAL_DIGITS
template <class T> static T value() { if constexpr (std::is_same_v<T, bool>) return sym_bool("v"); else return sym_val<T>("v"); }
#else
// real decimal text: one symbolic byte selects the value around every decimal-length and range boundary of T
template <class T> static T value() {
  unsigned k = sym_choice(46, "anchor"); using U = std::make_unsigned_t<T>; U base;
  if (k < 21) { base = 1; for (unsigned i = 0; i < k && i < 20; i++) base = (U)(base * 10); } else if (k < 42) { base = 1; for (unsigned i = 0; i < k - 21; i++) base = (U)(base * 10); base = (U)(0 - base); }
  else if (k == 42) base = 0; else if (k == 43) base = (U)std::numeric_limits<T>::max(); else if (k == 44) base = (U)std::numeric_limits<T>::min(); else base = (U)0x5A5A5A5A5A5A5A5Aull;
  return (T)(U)(base + (U)(signed char)sym_val<unsigned char>("delta")); }
#endif
template <class W> struct Wrap { W v{}; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(v); } };
template <class W> struct Base { W a{}; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a); } };
template <class W> struct Derived : Base<W> { std::string s; W b{}; W c = 1; std::optional<W> d; template <class A> constexpr auto persist(A& ar) { return this->Base<W>::persist(ar) & MEMBER_VARIABLE(s) & MEMBER_VARIABLE(b) & MEMBER_VARIABLE_DEFAULT(c) & MEMBER_VARIABLE(d); } bool operator==(const Derived& o) const { return this->a == o.a && s == o.s && b == o.b && c == o.c && eq(d, o.d); } };
template <class C> static void trip(const C& c, const char* ctx) {
  std::string s; sym_assert(write_to_string(c, s), "integer written as text");
#ifndef NO_PARSE
  { C w{}; sym_assert(parse(s, w), "text accepted by the parser"); sym_assert(eq(c, w), "parser returns the written integer"); }
#endif
  { C w{}; sym_assert(deserialize(s, w), "text accepted by the deserializer"); sym_assert(eq(c, w), "deserializer returns the written integer"); }
  Document d; sym_assert(serialize_to_document(c, d), "integer stored in a document");
  { C w{}; sym_assert(deserialize(d, w), "document accepted"); sym_assert(eq(c, w), "document returns the stored integer"); }
  std::string t = document_to_string(d);
#ifndef NO_PARSE
  { C w{}; sym_assert(parse(t, w), "document text accepted by the parser"); sym_assert(eq(c, w), "parser returns the integer of the document text"); }
#endif
  sym_reach(ctx); }
template <class T> static void all() {
#ifdef REAL_DIGITS
  T v = value<T>(); trip<T>(v, "plain");
#else
  unsigned k = sym_choice(16, "context"); T v = value<T>();
  switch (k) {
    case 0: trip<T>(v, "plain"); break;
    case 1: trip<std::vector<T>>({ v, value<T>() }, "vector"); break;
    case 2: trip<std::set<T>>({ v, value<T>() }, "set"); break;
    case 3: trip<std::array<T, 2>>({ value<T>(), v }, "array"); break;
    case 4: trip<std::pair<T, bool>>({ v, true }, "pair"); break;
    case 5: { std::map<std::string, T> m; m["k"] = v; trip(m, "map"); break; }
    case 6: { Wrap<T> w; w.v = v; std::string s; sym_assert(write_to_string(w, s), "member written"); Wrap<T> p, q, r; sym_assert(parse(s, p) && p.v == v, "member survives the parser"); sym_assert(deserialize(s, q) && q.v == v, "member survives the deserializer"); Document d; sym_assert(serialize_to_document(w, d) && deserialize(d, r) && r.v == v, "member survives the document"); sym_reach("member"); break; }
    case 7: { Wrap<std::optional<T>> w; w.v = v; std::string s; sym_assert(write_to_string(w, s), "optional member written"); Wrap<std::optional<T>> p, q, r; sym_assert(parse(s, p) && p.v && *p.v == v, "optional member survives the parser"); sym_assert(deserialize(s, q) && q.v && *q.v == v, "optional member survives the deserializer"); Document d; sym_assert(serialize_to_document(w, d) && deserialize(d, r) && r.v && *r.v == v, "optional member survives the document"); sym_reach("optional"); break; }
    case 8: { std::tuple<std::string, T, T> t{ "x", v, value<T>() }; trip(t, "tuple"); break; }
    case 9: trip(std::make_unique<T>(v), "unique"); break;
    case 10: trip(std::vector<std::shared_ptr<T>>{ std::make_shared<T>(v), std::make_shared<T>(value<T>()) }, "shared"); break;
    case 11: { std::unordered_map<std::string, T> m; m["k"] = v; m["a longer key than fits inline"] = value<T>(); trip(m, "unordered map"); break; }
    case 12: trip(std::vector<std::vector<T>>{ { v }, {}, { value<T>(), v } }, "nested"); break;
    case 13: { Derived<T> w; w.a = v; w.s = "t"; w.b = value<T>(); w.c = value<T>(); w.d = value<T>(); trip(w, "derived"); break; }
    case 14: { unsigned n = sweepSize(), at = n < 2 ? 0 : sym_choice(2, "at") ? n - 1 : n / 2; std::vector<T> w; for (unsigned i = 0; i < n; i++) w.push_back(i == at ? v : (T)(i * 7)); trip(w, "list"); break; }
    case 15: { std::map<std::string, std::vector<std::pair<bool, std::array<T, 5>>>> m; for (unsigned i = 0; i < 12; i++) m[std::to_string(i)] = { { true, { 0, 1, 0, 1, 0 } }, { false, { 1, 1, 1, 1, v } } }; trip(m, "deep"); break; }
  }
#endif
}
#ifndef REAL_DIGITS
HARNESS(h_bool) { all<bool>(); }
#endif
HARNESS(h_char) { all<char>(); }
HARNESS(h_schar) { all<signed char>(); }
HARNESS(h_uchar) { all<unsigned char>(); }
HARNESS(h_short) { all<short>(); }
HARNESS(h_ushort) { all<unsigned short>(); }
HARNESS(h_int) { all<int>(); }
HARNESS(h_uint) { all<unsigned>(); }
HARNESS(h_long) { all<long>(); }
HARNESS(h_ulong) { all<unsigned long>(); }
HARNESS(h_llong) { all<long long>(); }
HARNESS(h_ullong) { all<unsigned long long>(); }
