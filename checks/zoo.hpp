// Classes with required, optional, defaulted, inherited and nested members, with a reference reader each.
#pragma once
#include "tree.hpp"
#include <algorithm>
// member kinds: 0 required, 1 optional, 2 defaulted
struct MS { const char* name; int kind; JV (*make)(Dev&); };
// any subset of members, rotated or reversed, at most one shape deviation, at most one unknown key
static JV object(Dev& d, std::initializer_list<MS> ms) { JV v; v.k = JV::Obj;
  for (auto& m : ms) { if (ms.size() >= 5 && m.kind == 0) { if (d.left && sym_choice(2, "absent")) { d.left--; continue; } } else if (!sym_choice(2, "present")) continue; v.keys.push_back(m.name); v.a.push_back(m.make(d)); }
  unsigned n = (unsigned)v.a.size(); if (n > 1) { unsigned r = sym_choice(n > 3 ? 2 : n + 1, "order"); if (r == n || n > 3 && r) { std::reverse(v.a.begin(), v.a.end()); std::reverse(v.keys.begin(), v.keys.end()); } else { std::rotate(v.a.begin(), v.a.begin() + r, v.a.end()); std::rotate(v.keys.begin(), v.keys.begin() + r, v.keys.end()); } }
  if (d.left && sym_choice(2, "unknown")) { d.left--; static const char* const U[] = { "z", "", "aa", "A" }; unsigned p = n && sym_choice(2, "pos") ? n : 0; v.keys.insert(v.keys.begin() + p, U[sym_choice(ms.size() > 2 ? 2 : 4, "which")]); v.a.insert(v.a.begin() + p, leaf(JV::Int)); }
  return v; }
static unsigned g_missing, g_unknown, g_defaults; // what the reference reader met
template <class T> static bool req(const JV& v, const char* k, T& o) { const JV* m = find(v, k); if (!m) { g_missing++; return true; } return ref(*m, o); }
template <class T> static bool opt(const JV& v, const char* k, std::optional<T>& o) { const JV* m = find(v, k); o.reset(); if (!m) return true; T t{}; if (!ref(*m, t)) return false; o = std::move(t); return true; }
template <class T> static bool def(const JV& v, const char* k, T& o) { const JV* m = find(v, k); if (!m) g_defaults++; return !m || ref(*m, o); }
static bool open(const JV& v, std::initializer_list<const char*> names) { if (v.k != JV::Obj) return false; for (auto& k : v.keys) { bool known = false; for (auto n : names) known |= k == n; if (!known) g_unknown++; } return true; }
struct O1 { int a = 11; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a); }
  bool operator==(const O1& o) const { return a == o.a; } static O1 gen() { O1 o; o.a = Gen<int>::make(); return o; }
  static JV shape(Dev& d) { return object(d, { { "a", 0, ::shape<int> } }); } bool ref(const JV& v) { return open(v, { "a" }) & req(v, "a", a); } std::string want() const { return "{\"a\":" + num_text(a) + "}"; } };
struct OD { int a = 11; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE_DEFAULT(a); }
  bool operator==(const OD& o) const { return a == o.a; } static OD gen() { OD o; o.a = Gen<int>::make(); return o; }
  static JV shape(Dev& d) { return object(d, { { "a", 2, ::shape<int> } }); } bool ref(const JV& v) { return open(v, { "a" }) & def(v, "a", a); } std::string want() const { return "{\"a\":" + num_text(a) + "}"; } };
struct OO { std::optional<bool> a; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a); }
  bool operator==(const OO& o) const { return eq(a, o.a); } static OO gen() { OO o; o.a = Gen<std::optional<bool>>::make(); return o; }
  static JV shape(Dev& d) { return object(d, { { "a", 1, ::shape<bool> } }); } bool ref(const JV& v) { return open(v, { "a" }) & opt(v, "a", a); } std::string want() const { return a ? *a ? "{\"a\":true}" : "{\"a\":false}" : "{}"; } };
struct O2 { bool a = true; std::string b = "zz"; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(b); }
  bool operator==(const O2& o) const { return a == o.a && eq(b, o.b); } static O2 gen() { O2 o; o.a = Gen<bool>::make(); o.b = Gen<std::string>::make(); return o; }
  static JV shape(Dev& d) { return object(d, { { "a", 0, ::shape<bool> }, { "b", 0, ::shape<std::string> } }); } bool ref(const JV& v) { return open(v, { "a", "b" }) && (req(v, "a", a) & req(v, "b", b)); } std::string want() const { return std::string("{\"a\":") + (a ? "true" : "false") + ",\"b\":" + quoted(b) + "}"; } };
struct O2o { std::optional<bool> a; std::optional<std::string> b; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(b); }
  bool operator==(const O2o& o) const { return eq(a, o.a) && eq(b, o.b); } static O2o gen() { O2o o; o.a = Gen<std::optional<bool>>::make(); o.b = Gen<std::optional<std::string>>::make(); return o; }
  static JV shape(Dev& d) { return object(d, { { "a", 1, ::shape<bool> }, { "b", 1, ::shape<std::string> } }); } bool ref(const JV& v) { return open(v, { "a", "b" }) && (opt(v, "a", a) & opt(v, "b", b)); } std::string want() const { return std::string("{") + (a ? *a ? "\"a\":true" : "\"a\":false" : "") + (a && b ? "," : "") + (b ? "\"b\":" + quoted(*b) : "") + "}"; } };
struct O3 { bool a = true; std::optional<bool> b; std::string c = "dflt"; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(b) & MEMBER_VARIABLE_DEFAULT(c); }
  bool operator==(const O3& o) const { return a == o.a && eq(b, o.b) && eq(c, o.c); } static O3 gen() { O3 o; o.a = Gen<bool>::make(); o.b = Gen<std::optional<bool>>::make(); o.c = Gen<std::string>::make(); return o; }
  static JV shape(Dev& d) { return object(d, { { "a", 0, ::shape<bool> }, { "b", 1, ::shape<bool> }, { "c", 2, ::shape<std::string> } }); } bool ref(const JV& v) { return open(v, { "a", "b", "c" }) && (req(v, "a", a) & opt(v, "b", b) & def(v, "c", c)); }
  std::string want() const { return std::string("{\"a\":") + (a ? "true" : "false") + (b ? *b ? ",\"b\":true" : ",\"b\":false" : "") + ",\"c\":" + quoted(c) + "}"; } };
struct OB { bool a = false; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a); } };
struct ODer : OB { O1 b; std::vector<bool> c; template <class A> constexpr auto persist(A& ar) { return this->OB::persist(ar) & NAMED_MEMBER_VARIABLE("c", b) & NAMED_MEMBER_VARIABLE_DEFAULT("d", c); }
  bool operator==(const ODer& o) const { return a == o.a && b == o.b && c == o.c; } static ODer gen() { ODer o; o.a = Gen<bool>::make(); o.b = Gen<O1>::make(); o.c = Gen<std::vector<bool>>::make(); return o; }
  static JV shape(Dev& d) { return object(d, { { "a", 0, ::shape<bool> }, { "c", 0, ::shape<O1> }, { "d", 2, ::shape<std::vector<bool>> } }); } bool ref(const JV& v) { return open(v, { "a", "c", "d" }) && (req(v, "a", a) & req(v, "c", b) & def(v, "d", c)); }
  std::string want() const { std::string s; for (bool x : c) s += std::string(s.empty() ? "" : ",") + (x ? "true" : "false"); return std::string("{\"a\":") + (a ? "true" : "false") + ",\"c\":" + b.want() + ",\"d\":[" + s + "]}"; } };
struct O5 { std::optional<bool> a; bool b = false; bool c = true; std::optional<O2o> d; std::vector<OO> e; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(b) & MEMBER_VARIABLE_DEFAULT(c) & MEMBER_VARIABLE(d) & MEMBER_VARIABLE(e); }
  bool operator==(const O5& o) const { return eq(a, o.a) && b == o.b && c == o.c && eq(d, o.d) && eq(e, o.e); } static O5 gen() { O5 o; o.a = Gen<std::optional<bool>>::make(); o.b = Gen<bool>::make(); o.c = Gen<bool>::make(); o.d = Gen<std::optional<O2o>>::make(); o.e = Gen<std::vector<OO>>::make(); return o; }
  static JV shape(Dev& d) { return object(d, { { "a", 1, ::shape<bool> }, { "b", 0, ::shape<bool> }, { "c", 2, ::shape<bool> }, { "d", 1, ::shape<O2o> }, { "e", 0, ::shape<std::vector<OO>> } }); }
  bool ref(const JV& v) { return open(v, { "a", "b", "c", "d", "e" }) && (opt(v, "a", a) & req(v, "b", b) & def(v, "c", c) & opt(v, "d", d) & req(v, "e", e)); }
  std::string want() const { std::string s; for (auto& x : e) s += std::string(s.empty() ? "" : ",") + x.want(); return std::string("{") + (a ? *a ? "\"a\":true," : "\"a\":false," : "") + "\"b\":" + (b ? "true" : "false") + ",\"c\":" + (c ? "true" : "false") + (d ? ",\"d\":" + d->want() : "") + ",\"e\":[" + s + "]}"; } };
// ---- scalar types with a string form --------------------------------------------------------------------------------
enum class Named { Alpha, Beta, Gamma };
namespace persistence { template <> struct enum_traits<Named> { static std::string_view to_string(Named n) { return n == Named::Alpha ? "alpha" : n == Named::Beta ? "b" : "gamma"; } static bool from_string(const std::string_view& s, Named& n) { if (s == "alpha") n = Named::Alpha; else if (s == "b") n = Named::Beta; else if (s == "gamma") n = Named::Gamma; else return false; return true; } }; }
using Date = std::chrono::year_month_day;
static const char* const STRS[] = { "", "b", "AQI=", "AQI", "2023-02-28", "2023-02-29", "2023-02-28T12:30:59Z", "2023-02-28T24:30:59Z" };
inline JV oneOfStrs() { JV v; v.k = JV::Str; v.s = STRS[sym_choice(8, "text")]; return v; }
template <> struct Shape<byte_vector> { static JV make(Dev&) { return oneOfStrs(); } }; template <> struct Shape<timestamp> { static JV make(Dev&) { return oneOfStrs(); } }; template <> struct Shape<Date> { static JV make(Dev&) { return oneOfStrs(); } }; template <> struct Shape<Named> { static JV make(Dev&) { return oneOfStrs(); } };
template <> struct Shape<PlainEnum> { static JV make(Dev&) { return leaf(JV::Int); } };
template <> struct Ref<PlainEnum> { static bool read(const JV& v, PlainEnum& o) { short s = 0; if (!ref<short>(v, s)) return false; o = (PlainEnum)s; return true; } };
template <class T> bool refStr(const JV& v, std::initializer_list<int> good) { if (v.k != JV::Str) return false; for (int g : good) if (v.s == STRS[g]) return true; return false; }
template <> struct Ref<byte_vector> { static bool read(const JV& v, byte_vector& o) { if (v.k != JV::Str) return false; if (v.s == "") { o.clear(); return true; } if (v.s == "AQI=") { o = make_byte_vector(1, 2); return true; } return false; } };
template <> struct Ref<Date> { static bool read(const JV& v, Date& o) { if (v.k != JV::Str || v.s != "2023-02-28") return false; o = Date(std::chrono::year(2023), std::chrono::month(2), std::chrono::day(28)); return true; } };
template <> struct Ref<timestamp> { static bool read(const JV& v, timestamp& o) { if (v.k != JV::Str || v.s != "2023-02-28T12:30:59Z") return false; o = timestamp(std::chrono::seconds(1677587459)); return true; } };
template <> struct Ref<Named> { static bool read(const JV& v, Named& o) { if (v.k != JV::Str || v.s != "b") return false; o = Named::Beta; return true; } };
template <> struct Gen<Named> { static Named make() { return (Named)sym_choice(3, "enumerator"); } };
template <> struct Gen<Date> { static Date make() { return Date(std::chrono::year(2000 + (int)sym_choice(2, "year")), std::chrono::month(2), std::chrono::day(28)); } };
template <> struct Gen<timestamp> { static timestamp make() { return timestamp(std::chrono::seconds(1677587459 + (int)sym_choice(2, "sec"))); } };
// one object with a member of every kind of type
struct Every { Named n{}; byte_vector y; timestamp t; Date d{}; PlainEnum p{}; double f = 0; std::pair<bool, std::string> q; std::unique_ptr<O1> u; std::optional<std::shared_ptr<O2>> s;
  template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(n) & MEMBER_VARIABLE(y) & MEMBER_VARIABLE(t) & MEMBER_VARIABLE(d) & MEMBER_VARIABLE(p) & MEMBER_VARIABLE(f) & MEMBER_VARIABLE(q) & MEMBER_VARIABLE(u) & MEMBER_VARIABLE(s); }
  bool operator==(const Every& o) const { return n == o.n && eq(y, o.y) && t == o.t && d == o.d && p == o.p && eq(f, o.f) && eq(q, o.q) && eq(u, o.u) && eq(s, o.s); }
  static Every gen() { Every e; e.n = Gen<Named>::make(); e.y = Gen<byte_vector>::make(); e.t = Gen<timestamp>::make(); e.d = Gen<Date>::make(); e.p = Gen<PlainEnum>::make(); e.f = 1.5; e.q = Gen<std::pair<bool, std::string>>::make(); e.u = Gen<std::unique_ptr<O1>>::make(); e.s = Gen<std::optional<std::shared_ptr<O2>>>::make(); return e; } };
using S = std::string; template <class T> using V = std::vector<T>; template <class T> using M = std::map<S, T>; template <class T> using UM = std::unordered_map<S, T>; template <class T, size_t N> using A = std::array<T, N>; template <class X, class Y> using P = std::pair<X, Y>; template <class... X> using T = std::tuple<X...>; template <class T> using UP = std::unique_ptr<T>; template <class T> using SP = std::shared_ptr<T>;
// every readable type: name, type
#define SCALARS(X) X(bool, bool) X(schar, signed char) X(ushort, unsigned short) X(int, int) X(ulong, unsigned long) X(float, float) X(double, double) X(str, S) X(bytes, byte_vector) X(time, timestamp) X(date, Date) X(named, Named) X(plain, PlainEnum) X(null, std::nullptr_t)
#define CONTAINERS(X) X(vint, V<int>) X(vbool, V<bool>) X(vstr, V<S>) X(vv, V<V<short>>) X(vnamed, V<Named>) X(vbytes, V<byte_vector>) X(vtime, V<timestamp>) X(sint, std::set<int>) X(sstr, std::set<S>) X(snamed, std::set<Named>) X(aint, A<int, 2>) X(astr, A<S, 1>) X(abool, A<bool, 3>) X(pair, P<short, S>) X(tuple, T<int, Date, S>) X(mint, M<int>) X(mv, M<V<bool>>) X(umstr, UM<S>) X(vp, V<P<bool, S>>) X(vup, V<UP<int>>) X(msp, M<SP<S>>) X(va, V<A<bool, 2>>)
// three levels of classes with virtual functions, required and optional members at each level
struct PB { virtual ~PB() = default; virtual int kind() const { return 0; } bool a = false; std::optional<bool> o; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(o); } };
struct PM : PB { std::string s; int kind() const override { return 1; } template <class A> constexpr auto persist(A& ar) { return this->PB::persist(ar) & MEMBER_VARIABLE(s); } };
struct OPol : PM { short n = 0; std::optional<std::string> t; template <class A> constexpr auto persist(A& ar) { return this->PM::persist(ar) & MEMBER_VARIABLE(n) & MEMBER_VARIABLE(t); }
  bool operator==(const OPol& x) const { return a == x.a && eq(o, x.o) && s == x.s && n == x.n && eq(t, x.t); } static OPol gen() { OPol x; x.a = Gen<bool>::make(); x.o = Gen<std::optional<bool>>::make(); x.s = Gen<std::string>::make(); x.n = Gen<short>::make(); x.t = Gen<std::optional<std::string>>::make(); return x; }
  static JV shape(Dev& d) { return object(d, { { "a", 0, ::shape<bool> }, { "o", 1, ::shape<bool> }, { "s", 0, ::shape<std::string> }, { "n", 0, ::shape<short> }, { "t", 1, ::shape<std::string> } }); } bool ref(const JV& v) { return open(v, { "a", "o", "s", "n", "t" }) && (req(v, "a", a) & opt(v, "o", o) & req(v, "s", s) & req(v, "n", n) & opt(v, "t", t)); } std::string want() const { return std::string("{\"a\":") + (a ? "true" : "false") + (o ? *o ? ",\"o\":true" : ",\"o\":false" : "") + ",\"s\":" + ::quoted(s) + ",\"n\":" + num_text(n) + (t ? ",\"t\":" + ::quoted(*t) : std::string()) + "}"; } };
#define OBJECTS(X) X(O1, O1) X(OD, OD) X(OO, OO) X(O2, O2) X(O2o, O2o) X(O3, O3) X(ODer, ODer) X(vO2, V<O2>) X(mO1, M<O1>) X(upO2, UP<O2>) X(spO3, SP<O3>)
