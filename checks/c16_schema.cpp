// C16: the schema emitted for a type describes what the library writes and reads for that type.
#include "long.hpp"
#include <persistence/schema_utility.hpp>
using RV = rapidjson::Value;
// ---- a validator for the JSON Schema vocabulary (2020-12), independent of the library -------------------------------
static bool sameNode(const RV& a, const RV& b) { if (a.IsString() != b.IsString() || a.IsNumber() != b.IsNumber()) return a == b; if (a.IsString()) return a.GetStringLength() == b.GetStringLength() && std::memcmp(a.GetString(), b.GetString(), a.GetStringLength()) == 0; return a == b; }
static int cmpNum(const RV& a, const RV& b) { if (a.IsInt64() && b.IsInt64()) return a.GetInt64() < b.GetInt64() ? -1 : a.GetInt64() > b.GetInt64(); if (a.IsUint64() && b.IsUint64()) return a.GetUint64() < b.GetUint64() ? -1 : a.GetUint64() > b.GetUint64(); if (a.IsInt64() && b.IsUint64()) return -1; if (a.IsUint64() && b.IsInt64()) return 1; double x = a.GetDouble(), y = b.GetDouble(); return x < y ? -1 : x > y; }
static bool digits(const char* s, int n, int& v) { v = 0; for (int i = 0; i < n; i++) { if (s[i] < '0' || s[i] > '9') return false; v = v * 10 + (s[i] - '0'); } return true; }
static bool isDate(const char* s) { int y, m, d; if (!digits(s, 4, y) || s[4] != '-' || !digits(s + 5, 2, m) || s[7] != '-' || !digits(s + 8, 2, d) || m < 1 || m > 12 || d < 1) return false; static const int L[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; return d <= L[m - 1] + (m == 2 && (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0))); }
static bool isFormat(const std::string& f, const std::string& v) { if (f == "date") return v.size() == 10 && isDate(v.c_str()); int h, m, s; const char* p = v.c_str(); return v.size() == 20 && isDate(p) && p[10] == 'T' && digits(p + 11, 2, h) && p[13] == ':' && digits(p + 14, 2, m) && p[16] == ':' && digits(p + 17, 2, s) && p[19] == 'Z' && h < 24 && m < 60 && s < 60; }
static bool isBase64(const std::string& v) { if (v.size() % 4) return false; for (size_t i = 0; i < v.size(); i++) { char c = v[i]; bool a = (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '+' || c == '/'; if (!a && !(c == '=' && (i == v.size() - 1 || (i == v.size() - 2 && v[i + 1] == '=')))) return false; } return true; }
static const RV* key(const RV& o, const char* k) { auto it = o.FindMember(k); return it == o.MemberEnd() ? nullptr : &it->value; }
static bool valid(const RV& root, const RV& s, const RV& v) { if (s.IsBool()) return s.GetBool();
  if (auto* r = key(s, "$ref")) { std::string n = r->GetString(); sym_assert(n.compare(0, 14, "#/definitions/") == 0, "a reference in a schema points at a definition"); auto* d = key(root, "definitions"); auto* t = d ? key(*d, n.c_str() + 14) : nullptr; sym_assert(t != nullptr, "every reference in a schema has a definition"); return valid(root, *t, v); }
  if (auto* o = key(s, "oneOf")) { int n = 0; for (auto& x : o->GetArray()) n += valid(root, x, v); return n == 1; }
  if (auto* e = key(s, "enum")) { bool in = false; for (auto& x : e->GetArray()) in |= sameNode(x, v); if (!in) return false; }
  if (auto* t = key(s, "type")) { std::string n = t->GetString(); if (n == "null" ? !v.IsNull() : n == "boolean" ? !v.IsBool() : n == "integer" ? !(v.IsInt64() || v.IsUint64()) : n == "number" ? !v.IsNumber() : n == "string" ? !v.IsString() : n == "array" ? !v.IsArray() : n == "object" ? !v.IsObject() : true) return false; }
  if (v.IsNumber()) { if (auto* m = key(s, "minimum")) if (cmpNum(v, *m) < 0) return false; if (auto* m = key(s, "maximum")) if (cmpNum(v, *m) > 0) return false; }
  if (v.IsString()) { std::string t(v.GetString(), v.GetStringLength()); if (auto* f = key(s, "format")) if (!isFormat(f->GetString(), t)) return false; if (auto* c = key(s, "contentEncoding")) if (std::strcmp(c->GetString(), "base64") || !isBase64(t)) return false; }
  if (v.IsArray()) { unsigned n = v.Size(), pre = 0; if (auto* m = key(s, "minItems")) if (n < m->GetUint()) return false; if (auto* m = key(s, "maxItems")) if (n > m->GetUint()) return false;
    if (auto* p = key(s, "prefixItems")) for (pre = 0; pre < p->Size() && pre < n; pre++) if (!valid(root, (*p)[pre], v[pre])) return false; if (auto* i = key(s, "items")) for (unsigned k = pre; k < n; k++) if (!valid(root, *i, v[k])) return false;
    if (auto* u = key(s, "uniqueItems")) if (u->GetBool()) for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < i; j++) if (sameNode(v[i], v[j])) return false; }
  if (v.IsObject()) { auto* p = key(s, "properties"); auto* a = key(s, "additionalProperties"); for (auto& m : v.GetObject()) { const RV* t = nullptr; if (p) { auto it = p->FindMember(m.name); if (it != p->MemberEnd()) t = &it->value; } if (!t) t = a; if (t && !valid(root, *t, m.value)) return false; }
    if (auto* r = key(s, "required")) for (auto& x : r->GetArray()) if (v.FindMember(x) == v.MemberEnd()) return false; }
  return true; }
// every keyword has a value of the proper kind, every reference resolves
static void sound(const RV& root, const RV& s) { sym_assert(s.IsBool() || s.IsObject(), "a schema is an object"); if (!s.IsObject()) return; for (auto& m : s.GetObject()) { std::string k = m.name.GetString(); auto& v = m.value; unsigned n = 0; for (auto& o : s.GetObject()) n += o.name == m.name; sym_assert(n == 1, "no keyword is repeated in a schema");
    if (k == "items" || k == "additionalProperties") sound(root, v); else if (k == "prefixItems" || k == "oneOf") { sym_assert(v.IsArray() && v.Size(), "a list of schemas is not empty"); for (auto& x : v.GetArray()) sound(root, x); }
    else if (k == "properties" || k == "definitions") { sym_assert(v.IsObject(), "named schemas form an object"); for (auto& x : v.GetObject()) sound(root, x.value); }
    else if (k == "required") { auto* p = key(s, "properties"); for (auto& x : v.GetArray()) sym_assert(p && p->FindMember(x) != p->MemberEnd(), "a required member is described"); }
    else if (k == "enum") sym_assert(v.IsArray() && v.Size(), "a list of enumerators is not empty");
    else if (k == "$ref") { auto* d = key(root, "definitions"); sym_assert(v.IsString() && d && std::strncmp(v.GetString(), "#/definitions/", 14) == 0 && key(*d, v.GetString() + 14), "every reference in a schema has a definition"); } } }
template <class T> static void load(Document& d) { std::string s = schema_to_string<T>(); d.Parse(s.data(), s.size()); sym_assert(!d.HasParseError(), "a schema is well-formed JSON"); sound(d, d); Document e; std::string t = schema_document_to_string<T>(); e.Parse(t.data(), t.size()); auto* v = e.HasParseError() ? nullptr : key(e, "$schema"); sym_assert(v && v->IsString() && std::strcmp(v->GetString(), "https://json-schema.org/draft/2020-12/schema") == 0, "a schema document names its version"); e.RemoveMember("$schema"); sym_assert(e == d, "a schema document has the same schema"); }
// what is written validates
template <class T> static void wrote(const RV& s, const T& v) { std::string t; sym_assert(write_to_string(v, t), "written"); Document d; d.Parse(t.data(), t.size()); sym_assert(!d.HasParseError() && valid(s, s, d), "what is written conforms to the schema"); Document e; sym_assert(serialize_to_document(v, e) && valid(s, s, e), "a document conforms to the schema"); sym_reach("conforms"); }
// what validates is accepted; what is accepted, has every member and no other and no repeated set element, validates
static bool g_dups; static bool dupes(const JV& v) { if (v.k == JV::Arr) for (size_t i = 0; i < v.a.size(); i++) for (size_t j = 0; j < i; j++) { auto& a = v.a[i]; auto& b = v.a[j]; if (a.k == b.k && (a.k == JV::Bool ? a.b == b.b : a.k == JV::Int ? a.i == b.i : a.k == JV::Str ? a.s == b.s : true)) return true; } for (auto& x : v.a) if (dupes(x)) return true; return false; }
template <class T> struct HasSet : std::false_type {}; template <class T> struct HasSet<std::set<T>> : std::true_type {};
template <class T> static void conform(const RV& s, const JV& v) { std::string t = text(v); Document d; d.Parse(t.data(), t.size()); bool val = valid(s, s, d); T w{}; g_missing = g_unknown = 0; (void)ref(v, w); bool acc; { T x{}; acc = deserialize(t, x); } if (val && !std::is_same_v<T, Named> && !std::is_same_v<T, V<Named>>) { sym_assert(acc, "what conforms to the schema is accepted"); T x{}; sym_assert(parse(t, x), "what conforms to the schema is accepted by the parser"); }
  if (acc && !g_unknown && !g_defaults && !(HasSet<T>::value && dupes(v))) sym_assert(val, "what is accepted conforms to the schema"); sym_reach(val ? "valid" : "invalid"); }
template <class T> static void shaped() { Document s; load<T>(s); if (sym_choice(2, "dir")) wrote<T>(s, Gen<T>::make()); else { Dev d{ 1 }; g_defaults = 0; conform<T>(s, shape<T>(d)); } }
template <class T> static void large() { Document s; load<T>(s); JV v = longTree<T>(); g_defaults = 0; conform<T>(s, v); T w{}; g_missing = 0; if (ref(v, w) && !g_missing) wrote<T>(s, w); }
template <> struct Shape<UEnum> { static JV make(Dev&) { return leaf(JV::Int); } }; template <> struct Shape<LEnum> { static JV make(Dev&) { return leaf(JV::Int); } };
template <> struct Ref<UEnum> { static bool read(const JV& v, UEnum& o) { unsigned char s = 0; if (!ref(v, s)) return false; o = (UEnum)s; return true; } }; template <> struct Ref<LEnum> { static bool read(const JV& v, LEnum& o) { long long s = 0; if (!ref(v, s)) return false; o = (LEnum)s; return true; } };
struct Drv : OB { O1 b; std::optional<V<bool>> c; template <class A> constexpr auto persist(A& ar) { return this->OB::persist(ar) & NAMED_MEMBER_VARIABLE("c", b) & NAMED_MEMBER_VARIABLE("d", c); }
  bool operator==(const Drv& o) const { return a == o.a && b == o.b && eq(c, o.c); } static Drv gen() { Drv o; o.a = Gen<bool>::make(); o.b = Gen<O1>::make(); o.c = Gen<std::optional<V<bool>>>::make(); return o; }
  static JV shape(Dev& d) { return object(d, { { "a", 0, ::shape<bool> }, { "c", 0, ::shape<O1> }, { "d", 1, ::shape<std::vector<bool>> } }); } bool ref(const JV& v) { return open(v, { "a", "c", "d" }) && (req(v, "a", a) & req(v, "c", b) & opt(v, "d", c)); } };
#define X(n, ...) HARNESS(h_##n) { shaped<__VA_ARGS__>(); }
X(bool, bool) X(char, char) X(schar, signed char) X(uchar, unsigned char) X(short, short) X(ushort, unsigned short) X(int, int) X(uint, unsigned) X(long, long) X(ulong, unsigned long) X(llong, long long) X(ullong, unsigned long long) X(str, S) X(bytes, byte_vector) X(time, timestamp) X(date, Date) X(named, Named) X(plain, PlainEnum) X(uenum, UEnum) X(lenum, LEnum) X(null, std::nullptr_t)
X(vint, V<int>) X(vbool, V<bool>) X(vstr, V<S>) X(vv, V<V<short>>) X(vnamed, V<Named>) X(vbytes, V<byte_vector>) X(vtime, V<timestamp>) X(sint, std::set<int>) X(sstr, std::set<S>) X(aint, A<int, 2>) X(astr, A<S, 1>) X(abool, A<bool, 3>) X(pair, P<short, S>) X(tuple, T<int, Date, S>) X(mint, M<int>) X(mv, M<V<bool>>) X(umstr, UM<S>) X(va, V<A<bool, 2>>) X(vplain, V<PlainEnum>)
X(O1, O1) X(OO, OO) X(O2, O2) X(O2o, O2o) X(Drv, Drv) X(OPol, OPol) X(vO2, V<O2>) X(mO1, M<O1>) X(upO2, UP<O2>) X(spO2, SP<O2>)
#undef X
// nested classes, used more than once, and classes that contain themselves
struct In { short n = 0; std::optional<O2> o; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(n) & MEMBER_VARIABLE(o); } bool operator==(const In& x) const { return n == x.n && eq(o, x.o); }
  static JV shape(Dev& d) { return object(d, { { "n", 0, ::shape<short> }, { "o", 1, ::shape<O2> } }); } bool ref(const JV& v) { return open(v, { "n", "o" }) && (req(v, "n", n) & opt(v, "o", o)); } static In gen() { In i; i.n = Gen<short>::make(); i.o = Gen<std::optional<O2>>::make(); return i; } };
struct Out { V<In> a; M<In> b; O2 c; std::optional<T<bool, In>> d; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(b) & NAMED_MEMBER_VARIABLE("see", c) & MEMBER_VARIABLE(d); } bool operator==(const Out& x) const { return eq(a, x.a) && eq(b, x.b) && c == x.c && eq(d, x.d); } };
static LF inF[] = { { "n", 0, lng<short> }, { "o", 1, lng<O2> } }; template <> struct Lng<In> { static JV make(bool f, Salt& s, unsigned) { return lngObj(f, s, { inF[0], inF[1] }); } };
template <> struct Lng<Out> { static JV make(bool f, Salt& s, unsigned) { return lngObj(f, s, { { "a", 0, lng<V<In>> }, { "b", 0, lng<M<In>> }, { "see", 0, lng<O2> }, { "d", 1, lng<T<bool, In>> } }); } };
template <> struct Ref<Out> { static bool read(const JV& v, Out& o) { return open(v, { "a", "b", "see", "d" }) && (req(v, "a", o.a) & req(v, "b", o.b) & req(v, "see", o.c) & opt(v, "d", o.d)); } };
#define X(n, ...) HARNESS(h_long_##n) { large<__VA_ARGS__>(); }
X(vint, V<int>) X(sint, std::set<int>) X(sstr, std::set<S>) X(aint, A<int, 7>) X(astr, A<S, 5>) X(tuple6, T<int, S, bool, V<bool>, S, short>) X(pair, P<V<S>, M<S>>) X(mstr, M<S>) X(vv, V<V<int>>) X(vm, V<M<bool>>) X(vO2, V<O2>) X(mO2, M<O2>) X(vt, V<T<S, bool, int>>) X(Out, Out) X(vOut, V<Out>)
#undef X
struct Rec { bool v = false; V<Rec> c; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(v) & MEMBER_VARIABLE(c); } bool operator==(const Rec& x) const { return v == x.v && eq(c, x.c); } bool ref(const JV& j) { return open(j, { "v", "c" }) && (req(j, "v", v) & req(j, "c", c)); } };
static JV recTree(unsigned depth, bool f) { JV v; v.k = JV::Obj; unsigned what = f ? sym_choice(4, "at") : 3; v.keys = { "v", "c" }; v.a.resize(2); if (what == 0) v.a[0] = odd(); else v.a[0].k = JV::Bool, v.a[0].b = depth & 1; if (what == 1) v.a[1] = odd(); else { v.a[1].k = JV::Arr; unsigned n = depth ? sym_choice(3, "n") : 0; for (unsigned i = 0; i < n; i++) v.a[1].a.push_back(recTree(depth - 1, what == 3 && f && i == n - 1)); } if (what == 2) { v.keys.pop_back(); v.a.pop_back(); } return v; }
HARNESS(h_rec) { Document s; load<Rec>(s); JV v = recTree(2, true); conform<Rec>(s, v); Rec w; g_missing = 0; if (ref(v, w) && !g_missing) wrote<Rec>(s, w); }
HARNESS(h_vrec) { Document s; load<V<Rec>>(s); JV v; v.k = JV::Arr; v.a = { recTree(1, true) }; conform<V<Rec>>(s, v); V<Rec> w; g_missing = 0; if (ref(v, w) && !g_missing) wrote<V<Rec>>(s, w); }
// variants with alternatives of different kinds
HARNESS(h_variant) { using W = std::variant<bool, S, V<int>, O2, std::nullptr_t>; Document s; load<V<W>>(s); unsigned k = sym_choice(5, "alt"); W w; if (k == 0) w = Gen<bool>::make(); if (k == 1) w = Gen<S>::make(); if (k == 2) w = Gen<V<int>>::make(); if (k == 3) w = O2::gen(); if (k == 4) w = nullptr; wrote<V<W>>(s, V<W>{ w, true }); JV v; v.k = JV::Arr; v.a = { leaf(JV::Bool), odd() }; std::string t = text(v); Document d; d.Parse(t.data(), t.size()); V<W> x; bool val = valid(s, s, d), acc = deserialize(t, x); sym_assert(val == acc, "a variant is accepted exactly when it conforms to the schema"); sym_reach(val ? "valid" : "invalid"); }
HARNESS(h_number) { Document s, f; load<V<double>>(s); load<M<float>>(f); double x = sym_val<double>("d"); sym_assume(x - x == 0); wrote<V<double>>(s, { x, 0.5 }); float y = sym_val<float>("f"); sym_assume(y - y == 0); wrote<M<float>>(f, { { "a", y } }); JV v; v.k = JV::Arr; v.a = { odd() }; if (v.a[0].k == JV::Int) v.a[0].i = 5; std::string t = text(v); Document d; d.Parse(t.data(), t.size()); V<double> w; sym_assert(valid(s, s, d) == deserialize(t, w), "a number is accepted exactly when it conforms to the schema"); sym_reach("numbers"); }
