// C06: enumerations: named ones by exact name, others by in-range integer, wherever they appear.
#include "numctx.hpp"
#include <persistence/enum_utility.hpp>
#include <boost/describe/enum.hpp>
enum class Named : short { one = 1, two = -2, onetwo = 300, empty = 7 };
namespace persistence { template <> struct enum_traits<Named> { static std::string_view to_string(Named e); static bool from_string(const std::string_view& s, Named& e); }; }
static constexpr auto conv = make_enum_converter({ make_enum(Named::one, "one"), make_enum(Named::two, "two"), make_enum(Named::onetwo, "onetwo"), make_enum(Named::empty, "a\0b") });
std::string_view persistence::enum_traits<Named>::to_string(Named e) { return conv.to_string(e); }
bool persistence::enum_traits<Named>::from_string(const std::string_view& s, Named& e) { return conv.from_string(s, e); }
BOOST_DEFINE_ENUM_CLASS(Described, one, two, onetwo, x)
static const std::string_view N1[] = { "one", "two", "onetwo", std::string_view("a\0b", 3) }; static const Named V1[] = { Named::one, Named::two, Named::onetwo, Named::empty };
static const std::string_view N2[] = { "one", "two", "onetwo", "x" }; static const Described V2[] = { Described::one, Described::two, Described::onetwo, Described::x };
template <class T> struct Tab; template <> struct Tab<Named> { static auto& n() { return N1; } static auto& v() { return V1; } }; template <> struct Tab<Described> { static auto& n() { return N2; } static auto& v() { return V2; } };
template <class W> struct WrapE { bool a = false; W v{}; W b{}; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(v) & MEMBER_VARIABLE(b); } };
// JSON string literal of arbitrary bytes, through RapidJSON's own writer
static std::string quote(const std::string& s) { rapidjson::StringBuffer b; rapidjson::Writer<rapidjson::StringBuffer> w(b); w.String(s.data(), (rapidjson::SizeType)s.size()); return std::string(b.GetString(), b.GetSize()); }
template <class C, class T, class F> static void runName(const std::string& lit, bool want, T v, const std::string& pre, const std::string& post, F get, const char* ctx) {
  std::string s = pre + lit + post;
  { C w{}; bool ok = parse(s, w); sym_assert(ok == want, "the parser accepts exactly the names of the enumeration"); if (ok) sym_assert(get(w) == v, "the parser returns the named value"); }
  { C w{}; bool ok = deserialize(s, w); sym_assert(ok == want, "the deserializer accepts exactly the names of the enumeration"); if (ok) sym_assert(get(w) == v, "the deserializer returns the named value"); }
  sym_reach(ctx); }
template <class T> static void contexts(const std::string& n, bool want, T v) { 
  switch (sym_choice(10, "context")) {
    case 0: runName<T>(n, want, v, "", "", [](T& w) { return w; }, "plain"); break;
    case 1: runName<std::vector<T>>(n, want, v, "[\"two\",", "]", [](std::vector<T>& w) { return w.at(1); }, "vector"); break;
    case 2: runName<std::set<T>>(n, want, v, "[", "]", [](std::set<T>& w) { return *w.begin(); }, "set"); break;
    case 3: runName<std::array<T, 2>>(n, want, v, "[", ",\"one\"]", [](std::array<T, 2>& w) { return w[0]; }, "array"); break;
    case 4: runName<std::pair<bool, T>>(n, want, v, "[true,", "]", [](std::pair<bool, T>& w) { return w.second; }, "pair"); break;
    case 5: runName<std::map<std::string, T>>(n, want, v, "{\"k\":", "}", [](std::map<std::string, T>& w) { return w["k"]; }, "map"); break;
    case 6: runName<Wrap<T>>(n, want, v, "{\"v\":", "}", [](Wrap<T>& w) { return w.v; }, "member"); break;
    case 7: runName<Wrap<std::optional<T>>>(n, want, v, "{\"v\":", "}", [](Wrap<std::optional<T>>& w) { return w.v.value(); }, "optional"); break;
    case 8: runName<Wrap2<T>>(n, want, v, "{\"v\":", ",\"b\":true}", [](Wrap2<T>& w) { return w.v; }, "member of 2"); break;
    case 9: runName<WrapE<T>>(n, want, v, "{\"a\":true,\"v\":", ",\"b\":\"one\"}", [](WrapE<T>& w) { return w.v; }, "member of 3"); break; } }
// reading: any string of up to 7 bytes
template <class T> static void names() { unsigned n = sym_choice(MAXN + 1, "len"); std::string s = sym_string(n, "text"); if (MAXN > 4) for (unsigned char c : s) sym_assume(c >= 0x20 && c != '"' && c != '\\'); bool want = false; T v{};
  for (unsigned i = 0; i < 4; i++) if (Tab<T>::n()[i].size() == n && std::memcmp(Tab<T>::n()[i].data(), s.data(), n) == 0) { want = true; v = Tab<T>::v()[i]; sym_reach("known"); }
  contexts<T>(MAXN > 4 ? "\"" + s + "\"" : quote(s), want, v); }
HARNESS(h_named) { names<Named>(); }
HARNESS(h_described) { names<Described>(); }
// reading: JSON values of other types
template <class T> static void types() { static const char* O[] = { "null", "true", "1", "300", "-2", "1.5", "[]", "{}", "[\"one\"]" }; contexts<T>(O[sym_choice(9, "other")], false, T{}); }
HARNESS(h_named_types) { types<Named>(); }
HARNESS(h_described_types) { types<Described>(); }
// writing and reading back
template <class C> static void trip(const C& c, const std::string& want, const char* ctx) { std::string s; sym_assert(write_to_string(c, s) && s == want, "an enumeration value is written as its name"); Document d; sym_assert(serialize_to_document(c, d) && document_to_string(d) == want, "an enumeration value is stored as its name");
  C p{}, q{}, r{}; sym_assert(parse(s, p) && eq(c, p), "the parser returns the written value"); sym_assert(deserialize(s, q) && eq(c, q), "the deserializer returns the written value"); sym_assert(deserialize(d, r) && eq(c, r), "the document returns the stored value"); sym_reach(ctx); }
template <class T> static void write() { unsigned i = sym_choice(4, "value"), k = sym_choice(4, "second"); T v = Tab<T>::v()[i], u = Tab<T>::v()[k]; std::string n = quote(std::string(Tab<T>::n()[i])), m = quote(std::string(Tab<T>::n()[k]));
  switch (sym_choice(5, "context")) { case 0: trip<T>(v, n, "plain"); break; case 1: trip<std::vector<T>>({ v, u }, "[" + n + "," + m + "]", "vector"); break; case 2: trip<std::array<T, 2>>({ v, u }, "[" + n + "," + m + "]", "array"); break;
    case 3: { std::map<std::string, T> x; x["k"] = v; x["l"] = u; trip(x, "{\"k\":" + n + ",\"l\":" + m + "}", "map"); break; } case 4: trip<std::tuple<T, bool, T>>({ v, true, u }, "[" + n + ",true," + m + "]", "tuple"); break; } }
HARNESS(h_named_write) { write<Named>(); }
HARNESS(h_described_write) { write<Described>(); }
// enumerations without names: the integer, range-checked (number token abstraction)
template <class T> static void plain() { using U = std::underlying_type_t<T>; T v = (T)sym_val<U>("v"); std::string t = std::is_signed_v<U> ? num_text((int64_t)(U)v) : num_text_u((uint64_t)(U)v);
  std::string s; sym_assert(write_to_string(v, s) && s == t, "an enumeration value is written as its integer"); Document d; sym_assert(serialize_to_document(v, d), "stored"); sym_assert(std::is_signed_v<U> ? d.IsInt64() && d.GetInt64() == (int64_t)(U)v : d.IsUint64() && d.GetUint64() == (uint64_t)(U)v, "an enumeration value is stored as its integer");
  T p{}, q{}; sym_assert(parse(s, p) && p == v, "the parser returns the written value"); sym_assert(deserialize(s, q) && q == v, "the deserializer returns the written value"); T r{}; sym_assert(deserialize(d, r) && r == v, "document"); sym_reach("round trip"); }
HARNESS(h_plain_short) { plain<PlainEnum>(); }
HARNESS(h_plain_uchar) { plain<UEnum>(); }
HARNESS(h_plain_llong) { plain<LEnum>(); }
enum UnscopedInt { u0, u1 = 5 }; enum class UL : unsigned long { a };
HARNESS(h_plain_unscoped) { plain<UnscopedInt>(); }
HARNESS(h_plain_ulong) { plain<UL>(); }
// every number offered to an enumeration without names: accepted exactly when the underlying type represents it
enum class R8 : signed char { a }; enum class RU8 : unsigned char { a }; enum class R16 : short { a }; enum class RU16 : unsigned short { a }; enum class R32 : int { a }; enum class RU32 : unsigned { a }; enum class R64 : long { a }; enum class RU64 : unsigned long { a }; enum class RC : char { a }; enum RL : unsigned char { rl };
#define R(n, T) HARNESS(h_range_##n) { ints<T>(); }
R(R8, R8) R(RU8, RU8) R(R16, R16) R(RU16, RU16) R(R32, R32) R(RU32, RU32) R(R64, R64) R(RU64, RU64) R(RC, RC) R(RL, RL)
// enumerations with many names, some long, some prefixes of others; wide and unsorted values
#define MANY(X) X(a, -1) X(b, 0) X(ab, 9) X(ba, 3) X(abc, 2) X(red, 70000) X(green, -70000) X(blue, 1) X(cyan, 4) X(yellow, 5) X(black, 6) X(white, 7) X(whites, 8) X(north, 256) X(south, 512) X(east, -256) X(west, 65536) X(Monday, 10) X(monday, 11) X(MONDAY, 12) X(Tuesday, 4294967296) X(x0, 4294967297) X(x1, -4294967296) X(x01, 9223372036854775807) X(x10, -9223372036854775807) X(fifteen_letters, 13) X(sixteen_letters_, 14) X(seventeen_letters, 15) X(a_name_that_is_longer_than_thirty_two_characters, 16) X(a_name_that_is_longer_than_thirty_two_characters_, 17) X(a_name_that_is_longer_than_sixty_four_characters_and_still_is_a_valid_name, 18) X(z, 300)
#define X(n, v) n = v,
enum class Many : long long { MANY(X) };
#undef X
#define X(n, v) std::pair<Many, std::string_view>(Many::n, #n),
static constexpr auto mconv = make_enum_converter({ MANY(X) });
#undef X
namespace persistence { template <> struct enum_traits<Many> { static std::string_view to_string(Many e) { return mconv.to_string(e); } static bool from_string(const std::string_view& s, Many& e) { return mconv.from_string(s, e); } }; }
BOOST_DEFINE_ENUM_CLASS(Desc, a, b, ab, ba, abc, red, green, blue, cyan, yellow, black, white, whites, north, south, east, west, Monday, monday, MONDAY, Tuesday, x0, x1, x01, x10, fifteen_letters, sixteen_letters_, seventeen_letters, a_name_that_is_longer_than_thirty_two_characters, a_name_that_is_longer_than_thirty_two_characters_, a_name_that_is_longer_than_sixty_four_characters_and_still_is_a_valid_name, z)
template <class T> static void many() {
#define X(n, v) { #n, T::n },
  static const std::pair<std::string, T> L[] = { MANY(X) };
#undef X
  constexpr unsigned N = sizeof L / sizeof *L; unsigned i = sym_choice(N, "name"); std::string s = L[i].first; unsigned how = sym_choice(4, "how");
  if (how == 1) { unsigned at = sym_choice((unsigned)s.size() < 20 ? (unsigned)s.size() : 20, "at"); sym_bytes(&s[at < 10 ? at : s.size() - 1 - (at - 10) % s.size()], 1, "byte"); } else if (how == 2) { s += 'x'; sym_bytes(&s[s.size() - 1], 1, "more"); } else if (how == 3) s.pop_back();
  bool want = false; T v{}; for (auto& [n, e] : L) if (n == s) { want = true; v = e; }
  std::string q = quote(s); { T w{}; bool r = parse(q, w); sym_assert(r == want && (!r || w == v), "the parser takes exactly the names"); } { T w{}; bool r = deserialize(q, w); sym_assert(r == want && (!r || w == v), "the deserializer takes exactly the names"); }
  std::string l = "[" + q + ",\"z\"," + q + "]"; { std::vector<T> w; bool r = parse(l, w); sym_assert(r == want && (!r || (w.size() == 3 && w[0] == v && w[1] == T::z && w[2] == v)), "the parser takes exactly the names in a list"); } { std::vector<T> w; bool r = deserialize(l, w); sym_assert(r == want && (!r || (w.size() == 3 && w[0] == v && w[2] == v)), "the deserializer takes exactly the names in a list"); }
  if (want) { std::string o; sym_assert(write_to_string(v, o) && o == q, "written by name"); Document d; std::vector<T> w{ v, T::a, v }; sym_assert(serialize_to_document(w, d) && document_to_string(d) == "[" + q + ",\"a\"," + q + "]", "stored by name"); sym_reach("known"); } else sym_reach("unknown"); }
HARNESS(h_many) { many<Many>(); }
HARNESS(h_many_described) { many<Desc>(); }
