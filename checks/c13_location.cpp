// C13: the exception of a rejected document names the location of an element that does not fit; the parser reports an offset inside it.
#include "long.hpp"
static std::string esc(const std::string& k) { std::string o; for (char c : k) { if (c == '~') o += "~0"; else if (c == '/') o += "~1"; else o += c; } return o; }
struct Miss { std::string path; const JV* node; };
using Out = std::vector<Miss>;
template <class T, class = void> struct Loc { static void find(const JV& v, const std::string& p, Out& o) { T t{}; if (!ref<T>(v, t)) o.push_back({ p, &v }); } };
template <class T> static void loc(const JV& v, const std::string& p, Out& o) { Loc<T>::find(v, p, o); }
static bool arr(const JV& v, const std::string& p, Out& o, int n = -1) { if (v.k != JV::Arr || (n >= 0 && (int)v.a.size() != n)) { o.push_back({ p, &v }); return false; } return true; }
template <class T> static void items(const JV& v, const std::string& p, Out& o) { for (size_t i = 0; i < v.a.size(); i++) loc<T>(v.a[i], p + "/" + std::to_string(i), o); }
template <class T> struct Loc<std::vector<T>, std::enable_if_t<!std::is_same_v<T, std::byte>>> { static void find(const JV& v, const std::string& p, Out& o) { if (arr(v, p, o)) items<T>(v, p, o); } };
template <class T> struct Loc<std::set<T>> { static void find(const JV& v, const std::string& p, Out& o) { if (arr(v, p, o)) items<T>(v, p, o); } };
template <class T, size_t N> struct Loc<std::array<T, N>> { static void find(const JV& v, const std::string& p, Out& o) { if (arr(v, p, o, N)) items<T>(v, p, o); } };
template <class X, class Y> struct Loc<std::pair<X, Y>> { static void find(const JV& v, const std::string& p, Out& o) { if (arr(v, p, o, 2)) { loc<X>(v.a[0], p + "/0", o); loc<Y>(v.a[1], p + "/1", o); } } };
template <class... Ts> struct Loc<std::tuple<Ts...>> { static void find(const JV& v, const std::string& p, Out& o) { if (arr(v, p, o, sizeof...(Ts))) { size_t i = 0; ((loc<Ts>(v.a[i], p + "/" + std::to_string(i), o), i++), ...); } } };
template <class T> static void entries(const JV& v, const std::string& p, Out& o) { if (v.k != JV::Obj) { o.push_back({ p, &v }); return; } for (size_t i = 0; i < v.a.size(); i++) loc<T>(v.a[i], p + "/" + esc(v.keys[i]), o); }
template <class T> struct Loc<std::map<std::string, T>> { static void find(const JV& v, const std::string& p, Out& o) { entries<T>(v, p, o); } };
template <class T> struct Loc<std::unordered_map<std::string, T>> { static void find(const JV& v, const std::string& p, Out& o) { entries<T>(v, p, o); } };
template <class T> struct Loc<std::unique_ptr<T>> { static void find(const JV& v, const std::string& p, Out& o) { loc<T>(v, p, o); } };
template <class T> struct Loc<std::shared_ptr<T>> { static void find(const JV& v, const std::string& p, Out& o) { loc<T>(v, p, o); } };
template <class T> struct Loc<std::optional<T>> { static void find(const JV& v, const std::string& p, Out& o) { loc<T>(v, p, o); } };
template <class T> struct Loc<T, std::void_t<decltype(T::loc(std::declval<const JV&>(), std::string(), std::declval<Out&>()))>> { static void find(const JV& v, const std::string& p, Out& o) { T::loc(v, p, o); } };
static bool obj(const JV& v, const std::string& p, Out& o) { if (v.k != JV::Obj) { o.push_back({ p, &v }); return false; } return true; }
template <class T> static void mem(const JV& v, const char* k, bool required, const std::string& p, Out& o) { const JV* m = find(v, k); if (m) loc<T>(*m, p + "/" + esc(k), o); else if (required) o.push_back({ p, &v }); }
// members in declared order; an absent required member is a deviation
static JV plain(Dev& d, std::initializer_list<MS> ms) { JV v; v.k = JV::Obj; for (auto& m : ms) { if (m.kind == 0) { if (d.left && sym_choice(2, "absent")) { d.left--; continue; } } else if (!sym_choice(2, "present")) continue; v.keys.push_back(m.name); v.a.push_back(m.make(d)); } return v; }
struct In { bool a = false; std::optional<V<Date>> b; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a) & NAMED_MEMBER_VARIABLE("b/~", b); } bool operator==(const In&) const { return true; }
  static JV shape(Dev& d) { return plain(d, { { "a", 0, ::shape<bool> }, { "b/~", 1, ::shape<V<Date>> } }); } bool ref(const JV&) { return true; } static void loc(const JV& v, const std::string& p, Out& o) { if (obj(v, p, o)) { mem<bool>(v, "a", true, p, o); mem<V<Date>>(v, "b/~", false, p, o); } } };
struct InB { M<A<bool, 2>> x; template <class A> constexpr auto persist(A& ar) { return ar & NAMED_MEMBER_VARIABLE("", x); } };
struct Mid : InB { V<In> y; Named z{}; template <class A> constexpr auto persist(A& ar) { return this->InB::persist(ar) & MEMBER_VARIABLE(y) & MEMBER_VARIABLE_DEFAULT(z); } bool operator==(const Mid&) const { return true; }
  static JV shape(Dev& d) { return plain(d, { { "", 0, ::shape<M<A<bool, 2>>> }, { "y", 0, ::shape<V<In>> }, { "z", 2, ::shape<Named> } }); } bool ref(const JV&) { return true; } static void loc(const JV& v, const std::string& p, Out& o) { if (obj(v, p, o)) { mem<M<A<bool, 2>>>(v, "", true, p, o); mem<V<In>>(v, "y", true, p, o); mem<Named>(v, "z", false, p, o); } } };
template <> struct Loc<O2> { static void find(const JV& v, const std::string& p, Out& o) { if (obj(v, p, o)) { mem<bool>(v, "a", true, p, o); mem<S>(v, "b", true, p, o); } } };
template <> struct Loc<Big> { static void find(const JV& v, const std::string& p, Out& o) { if (!obj(v, p, o)) return;
#define X(T, n, k) mem<T>(v, #n, k == 0, p, o);
  BIG_FIELDS(X)
#undef X
} };
// textual extent of a node
static bool extent(const JV& v, const JV* n, size_t& pos, size_t& b, size_t& e) { size_t start = pos; bool hit = false;
  if (v.k == JV::Arr || v.k == JV::Obj) { pos++; for (size_t i = 0; i < v.a.size(); i++) { if (i) pos++; if (v.k == JV::Obj) pos += quoted(v.keys[i]).size() + 1; hit |= extent(v.a[i], n, pos, b, e); } pos++; } else pos += text(v).size();
  if (&v == n) { b = start; e = pos; hit = true; } return hit; }
template <class T> static void whereTree(const JV& v) { Out o; loc<T>(v, "", o); std::string s = text(v);
  for (int k = 0; k < 2; k++) { std::string got = "none"; try { if (k == 0) deserialize<T>(s); else { Document doc; dtree(v, doc); deserialize<T>(doc); } } catch (const JsonDeserializationError& e) { got = e.path == "/" && !o.empty() && o[0].path.empty() ? "" : e.path; sym_assert(e.path.find('\0') != std::string::npos || std::string(e.what()).find(" at " + e.path) != std::string::npos, "the message of the exception contains the location"); }
    if (o.empty()) { sym_assert(got == "none", "no location is reported for a document that fits"); sym_reach("fits"); }
    else { bool in = false; for (auto& m : o) in |= m.path == got; sym_assert(in, "the reported location is that of an element that does not fit"); sym_reach("located"); } }
  // the parser stops within the first element that does not fit
  if (!o.empty()) { size_t first = (size_t)-1, end = 0; bool missing = false; for (auto& m : o) { size_t p = 0, b = 0, e = 0; extent(v, m.node, p, b, e); if (b < first) { first = b; end = e; } missing |= m.node->k == JV::Obj; }
    if (!missing) try { parse<T>(s); } catch (const JsonParseError& e) { sym_assert(e.offset >= first && e.offset <= end, "the parser reports an offset within the element that does not fit"); sym_assert(std::string(e.what()).find(std::to_string(e.offset)) != std::string::npos, "the message of the exception contains the offset"); sym_reach("offset"); } } }
template <class T> static void where() { Dev d{ DEVS }; whereTree<T>(shape<T>(d)); }
#define X(n, ...) HARNESS(h_##n) { where<__VA_ARGS__>(); }
X(int, int) X(str, S) X(time, timestamp) X(bytes, byte_vector) X(null, std::nullptr_t) X(dbl, double)
X(vint, V<int>) X(vbool, V<bool>) X(vstr, V<S>) X(vv, V<V<bool>>) X(vnamed, V<Named>) X(sstr, std::set<S>) X(svb, std::set<V<bool>>) X(aint, A<int, 2>) X(aa, A<A<bool, 1>, 2>) X(pair, P<short, S>) X(tuple, T<int, Date, V<S>>) X(mint, M<int>) X(mv, M<V<bool>>) X(umstr, UM<S>) X(vm, V<M<bool>>) X(vup, V<UP<int>>) X(vsp, M<SP<V<bool>>>) X(In, In) X(vIn, V<In>) X(mIn, M<In>) X(Mid, Mid)
#undef X
// a long list, and map keys of arbitrary bytes
HARNESS(h_long) { JV v; v.k = JV::Arr; unsigned n = 112, k = sym_choice(n, "at"); for (unsigned i = 0; i < n; i++) { JV b; b.k = i == k ? JV::Null : JV::Bool; v.a.push_back(b); } std::string got; try { deserialize<V<bool>>(text(v)); } catch (const JsonDeserializationError& e) { got = e.path; } sym_assert(got == "/" + std::to_string(k), "the reported location is the index of the element that does not fit"); sym_reach("long"); }
HARNESS(h_key) { unsigned n = sym_choice(4, "len"); std::string k = sym_string(n, "key"), got = "none"; JV in; in.k = JV::Obj; in.keys = { k }; in.a = { leaf(JV::Null) }; JV v; v.k = JV::Obj; v.keys = { "q" }; v.a = { in }; try { deserialize<M<M<bool>>>(text(v)); } catch (const JsonDeserializationError& e) { got = e.path; } sym_assert(got == "/q/" + esc(k), "the reported location names the key of the element that does not fit"); sym_reach("key"); }
// variants: the location is that of the variant
HARNESS(h_variant) { using W = std::variant<bool, S, V<In>>; JV v; v.k = JV::Arr; v.a = { leaf(JV::Bool), odd() }; std::string got = "none"; bool fits = v.a[1].k == JV::Bool || v.a[1].k == JV::Str || (v.a[1].k == JV::Arr && v.a[1].a.empty()); try { deserialize<V<W>>(text(v)); } catch (const JsonDeserializationError& e) { got = e.path; } sym_assert(got == (fits ? "none" : "/1"), "the reported location is the variant that does not fit"); sym_reach("variant"); }
// malformed text: the offset of the exception is where RapidJSON stops
template <class T> static void syntax(std::string s) { unsigned k = sym_choice((unsigned)s.size(), "pos"); if (sym_choice(2, "cut")) s.resize(k); else { char c; sym_bytes(&c, 1, "byte"); sym_assume(c != 0); s[k] = c; } Document d; d.Parse(s.c_str()); if (!d.HasParseError()) sym_end(); size_t want = d.GetErrorOffset(); sym_assert(want <= s.size(), "inside"); try { deserialize<T>(s); sym_assert(false, "malformed text is rejected"); } catch (const JsonParseError& e) { sym_assert(e.offset == want, "the offset of malformed text is reported"); } try { deserialize<T>(std::string(s)); sym_assert(false, "malformed text is rejected"); } catch (const JsonParseError& e) { sym_assert(e.offset == want, "the offset of malformed text is reported when read in place"); } try { parse<T>(s); sym_assert(false, "malformed text is rejected by the parser"); } catch (const JsonParseError& e) { sym_assert(e.offset <= want, "the parser stops at the malformed text or before"); } sym_reach("malformed"); }
HARNESS(h_syntax_vec) { syntax<V<bool>>("[true, false]"); } HARNESS(h_syntax_obj) { syntax<In>("{\"a\":true}"); } HARNESS(h_syntax_str) { syntax<S>("\"a\\u00e9\\n\""); } HARNESS(h_syntax_int) { syntax<V<int>>("[-12,3]"); }
// large documents
#define X(n, ...) HARNESS(h_long_##n) { whereTree<__VA_ARGS__>(longTree<__VA_ARGS__>()); }
LONGC(X) LONGO(X)
#undef X
// sizes up to 300, strings and keys of up to 5000 bytes
#define X(n, l, ...) HARNESS_SW(h_sweep_##n) { whereTree<__VA_ARGS__>(sweepTree<__VA_ARGS__>(l)); }
SWEEPC(X) SWEEPO(X)
#undef X
#define X(n, k, ...) HARNESS_SW(h_len_##n) { whereTree<__VA_ARGS__>(lenTree<__VA_ARGS__>(k)); }
LENC(X) LENO(X)
#undef X
