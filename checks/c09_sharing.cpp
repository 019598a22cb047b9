// C09: shared objects are written once, referenced by a valid JSON pointer, and come back shared in the same way.
#include "tree.hpp"
#include "sweep.hpp"
struct V { signed char v = 0; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(v); } };
struct U { std::string v; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(v); } };
using P = std::shared_ptr<V>;
struct N { P c; signed char k = 0; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(c) & MEMBER_VARIABLE(k); } };
static P mk() { auto p = std::make_shared<V>(); p->v = sym_val<signed char>("v"); return p; }
// a partition of n slots: slot i holds the object of an earlier slot, or a new one
static std::vector<P> slots(unsigned n) { std::vector<P> r, d; for (unsigned i = 0; i < n; i++) { unsigned k = d.empty() ? 0 : sym_choice((unsigned)d.size() + 1, "share"); if (k == d.size()) d.push_back(mk()); r.push_back(d[k]); } return r; }
static void count(const rapidjson::Value& v, unsigned& refs, unsigned& objs, const rapidjson::Document& root) {
  if (v.IsArray()) for (auto& x : v.GetArray()) count(x, refs, objs, root);
  if (v.IsObject()) { auto it = v.FindMember("$ref"); if (it != v.MemberEnd()) { refs++; sym_assert(v.MemberCount() == 1 && it->value.IsString(), "a back-reference holds only a string"); rapidjson::Pointer p(it->value.GetString(), it->value.GetStringLength()); sym_assert(p.IsValid(), "a back-reference is a valid JSON pointer"); auto* t = p.Get(root); sym_assert(t && t->IsObject() && t->FindMember("v") != t->MemberEnd() && t->FindMember("v")->value.IsInt(), "a back-reference points at the earlier occurrence"); return; }
    if (v.FindMember("v") != v.MemberEnd() && v["v"].IsInt()) objs++; for (auto& m : v.GetObject()) count(m.value, refs, objs, root); } }
template <class T> static std::vector<P> flat(const T& t) { std::vector<P> r; t.each([&](const P& p) { r.push_back(p); }); return r; }
static unsigned distinct(const std::vector<P>& v) { unsigned n = 0; for (size_t i = 0; i < v.size(); i++) { bool f = true; for (size_t j = 0; j < i; j++) f &= v[j] != v[i]; n += f; } return n; }
static void compare(const std::vector<P>& a, const std::vector<P>& b) { sym_assert(a.size() == b.size(), "every shared pointer comes back"); for (size_t i = 0; i < a.size(); i++) { sym_assert(b[i] && b[i]->v == a[i]->v, "the shared value survives"); for (size_t j = 0; j < i; j++) sym_assert((a[i] == a[j]) == (b[i] == b[j]), "pointers are shared after reading exactly as before writing"); } }
template <class T> static void trip(const T& t) { auto a = flat(t); unsigned n = distinct(a);
  std::string s; sym_assert(write_to_string(t, s), "an object graph is written"); Document d; sym_assert(serialize_to_document(t, d), "an object graph is stored"); { unsigned r = 0, o = 0; count(d, r, o, d); sym_assert(o == n && r + n == a.size(), "each shared object is stored once and referenced elsewhere"); }
  { Document e; e.Parse(s.c_str(), s.size()); unsigned r = 0, o = 0; count(e, r, o, e); sym_assert(o == n && r + n == a.size(), "each shared object is written once and referenced elsewhere"); }
  { T w; sym_assert(deserialize(s, w), "the written graph is accepted"); compare(a, flat(w)); } { T w; sym_assert(deserialize(d, w), "the stored graph is accepted"); compare(a, flat(w)); } { T w = deserialize<T>(s); compare(a, flat(w)); } sym_reach("round trip"); }
struct Mem { P a, b, c; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(b) & MEMBER_VARIABLE(c); } template <class F> void each(F f) const { f(a); f(b); f(c); } };
HARNESS(h_members) { auto s = slots(3); trip(Mem{ s[0], s[1], s[2] }); }
struct Vec { std::vector<P> v; P z; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(v) & MEMBER_VARIABLE(z); } template <class F> void each(F f) const { for (auto& x : v) f(x); f(z); } };
HARNESS(h_vector) { auto s = slots(4); trip(Vec{ { s[0], s[1], s[2] }, s[3] }); }
HARNESS(h_long) { Vec t; for (int i = 0; i < 12; i++) { auto p = std::make_shared<V>(); p->v = (signed char)(i + 1); t.v.push_back(p); } unsigned i = sym_choice(12, "i"); t.v[i]->v = sym_val<signed char>("v"); t.z = t.v[i]; trip(t); }
struct Top { std::vector<P> v; template <class F> void each(F f) const { for (auto& x : v) f(x); } };
HARNESS(h_top) { auto s = slots(3); std::vector<P> t(s.begin(), s.end()), w, x; std::string str = write_to_string(t); sym_assert(deserialize(str, w), "a list of shared objects is accepted"); compare(t, w); Document d; sym_assert(serialize_to_document(t, d) && deserialize(d, x), "a stored list of shared objects is accepted"); compare(t, x); sym_reach("round trip"); }
struct Arr { std::array<P, 2> v; std::tuple<P, P> t; std::pair<P, bool> q; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(v) & MEMBER_VARIABLE(t) & MEMBER_VARIABLE(q); } template <class F> void each(F f) const { f(v[0]); f(v[1]); f(std::get<0>(t)); f(std::get<1>(t)); f(q.first); } };
HARNESS(h_fixed) { auto s = slots(5); trip(Arr{ { s[0], s[1] }, { s[2], s[3] }, { s[4], true } }); }
struct Map { std::map<std::string, P> m; P z; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(m) & MEMBER_VARIABLE(z); } template <class F> void each(F f) const { for (auto& x : m) f(x.second); f(z); } };
#ifndef KL
#define KL 2
#endif
HARNESS(h_key) { Map t; unsigned n = sym_choice(KL + 1, "len"); std::string k = sym_string(n, "key"); for (unsigned char c : k) sym_assume(c != '"' && c != '\\' && c >= 0x20); t.m[k] = mk(); t.m["x"] = sym_choice(2, "share") && t.m.count("x") == 0 ? t.m[k] : mk(); t.z = t.m[k]; trip(t); }
struct UMap { std::unordered_map<std::string, P> m; P z; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(m) & MEMBER_VARIABLE(z); } template <class F> void each(F f) const { for (auto k : { "a/b", "0", "" }) { auto it = m.find(k); f(it == m.end() ? nullptr : it->second); } f(z); } };
HARNESS(h_ukey) { auto s = slots(4); UMap t; t.m["a/b"] = s[0]; t.m["0"] = s[1]; t.m[""] = s[2]; t.z = s[3]; trip(t); }
struct Nam { P a, b; template <class A> constexpr auto persist(A& ar) { return ar & NAMED_MEMBER_VARIABLE("a/~b", a) & NAMED_MEMBER_VARIABLE("", b); } template <class F> void each(F f) const { f(a); f(b); } };
struct Nam2 { Nam n; P c; template <class A> constexpr auto persist(A& ar) { return ar & NAMED_MEMBER_VARIABLE("~1", n) & MEMBER_VARIABLE(c); } template <class F> void each(F f) const { n.each(f); f(c); } };
HARNESS(h_names) { auto s = slots(3); trip(Nam2{ { s[0], s[1] }, s[2] }); }
struct Nest { std::shared_ptr<N> a, b; P c; std::optional<P> d; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(b) & MEMBER_VARIABLE(c) & MEMBER_VARIABLE(d); } template <class F> void each(F f) const { f(a->c); f(b->c); f(c); if (d) f(*d); } };
HARNESS(h_nested) { auto s = slots(4); Nest t; t.a = std::make_shared<N>(); t.a->c = s[0]; t.b = std::make_shared<N>(); t.b->c = s[1]; t.c = s[2]; t.d = s[3]; trip(t); }
// the outer object itself shared as well
HARNESS(h_outer) { auto s = slots(2); auto n = std::make_shared<N>(); n->c = s[0]; n->k = sym_val<signed char>("k"); auto n2 = sym_choice(2, "same") ? n : std::make_shared<N>(*n); std::tuple<std::vector<std::shared_ptr<N>>, P> t{ { n, n2 }, s[1] }, w; std::string str = write_to_string(t); sym_assert(deserialize(str, w), "accepted"); auto& v = std::get<0>(w); sym_assert(v.size() == 2 && v[0] && v[1] && (v[0] == v[1]) == (n == n2), "outer sharing"); sym_assert(v[0]->k == n->k && v[1]->k == n2->k && v[0]->c->v == s[0]->v, "outer values"); sym_assert(v[0]->c == v[1]->c, "inner sharing"); sym_assert((std::get<1>(w) == v[0]->c) == (s[0] == s[1]), "sharing across levels"); sym_reach("round trip"); }
struct Set { std::set<P> s; std::vector<P> v; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(s) & MEMBER_VARIABLE(v); } };
static void setCheck(const Set& t, const Set& w) { sym_assert(w.s.size() == t.s.size() && w.v.size() == t.v.size(), "sizes survive"); for (size_t i = 0; i < t.v.size(); i++) { sym_assert(w.v[i] && w.v[i]->v == t.v[i]->v, "the shared value survives"); sym_assert(w.s.count(w.v[i]) == t.s.count(t.v[i]), "elements shared with a set are shared after reading"); for (size_t j = 0; j < i; j++) sym_assert((t.v[i] == t.v[j]) == (w.v[i] == w.v[j]), "pointers are shared after reading exactly as before writing"); } }
HARNESS(h_set) { auto s = slots(4); Set t; t.s.insert(s[0]); t.s.insert(s[1]); t.v = { s[2], s[3] }; std::string str = write_to_string(t); { Set w; sym_assert(deserialize(str, w), "accepted"); setCheck(t, w); } Document d; sym_assert(serialize_to_document(t, d), "stored"); { Set w; sym_assert(deserialize(d, w), "stored graph accepted"); setCheck(t, w); } sym_reach("round trip"); }
struct Uniq { std::unique_ptr<Mem> u; P z; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(u) & MEMBER_VARIABLE(z); } template <class F> void each(F f) const { u->each(f); f(z); } };
HARNESS(h_unique) { auto s = slots(4); Uniq t; t.u = std::make_unique<Mem>(Mem{ s[0], s[1], s[2] }); t.z = s[3]; trip(t); }
// ---- reading references that are not what the library writes
struct Two { P a; P b; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(b); } };
template <class T> static int thrown(const std::string& s) { try { T t = deserialize<T>(s); (void)t; return 0; } catch (const JsonDeserializationError&) { return 1; } }
HARNESS(h_ref) { unsigned n = sym_choice(4, "len"); std::string r = sym_string(n, "ref"); for (unsigned char c : r) sym_assume(c != '"' && c != '\\' && c >= 0x20); std::string s = "{\"a\":{\"v\":5},\"b\":{\"$ref\":\"" + r + "\"}}"; Two w; bool ok = deserialize(s, w); bool good = r == "/a" || r == "#/a"; sym_assert(ok == good, "a reference is accepted exactly when it names an object read before"); if (ok) { sym_assert(w.b == w.a && w.a->v == 5, "the reference shares the object"); sym_reach("good"); } else sym_reach("bad"); sym_assert(thrown<Two>(s) == !ok, "a reference that cannot be resolved raises an exception"); }
HARNESS(h_refkind) { static const char* const R[] = { "null", "true", "1", "1.5", "[]", "{}", "[\"/a\"]", "{\"v\":1}" }; std::string s = std::string("{\"a\":{\"v\":5},\"b\":{\"$ref\":") + R[sym_choice(8, "kind")] + "}}"; Two w; bool ok = deserialize(s, w); sym_assert(!ok, "a reference that is not a string is rejected"); sym_assert(thrown<Two>(s) == 1, "a reference that is not a string raises an exception"); sym_reach("kinds"); }
struct Mix { P a; std::shared_ptr<U> b; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(b); } };
HARNESS(h_type) { signed char v = 7; std::string s = sym_choice(2, "dir") ? "{\"a\":{\"v\":7},\"b\":{\"$ref\":\"/a\"}}" : "{\"b\":{\"v\":\"text\"},\"a\":{\"$ref\":\"/b\"}}"; Mix w; bool ok = deserialize(s, w); (void)v; sym_assert(!ok, "a reference to an object of another type is rejected"); sym_assert(thrown<Mix>(s) == 1, "a reference to an object of another type raises an exception"); sym_reach("type"); }
HARNESS(h_forward) { std::string s = "{\"a\":{\"$ref\":\"/b\"},\"b\":{\"v\":1}}"; Two w; sym_assert(!deserialize(s, w), "a forward reference is rejected"); sym_assert(thrown<Two>(s) == 1, "a forward reference raises an exception"); sym_reach("forward"); }
struct V1 { P p; bool x = false; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(p) & MEMBER_VARIABLE(x); } }; struct V2 { P p; std::string x; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(p) & MEMBER_VARIABLE(x); } };
struct Var { std::variant<V1, V2> o; P z; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(o) & MEMBER_VARIABLE(z); } template <class F> void each(F f) const { f(o.index() ? std::get<1>(o).p : std::get<0>(o).p); f(z); } };
HARNESS(h_variant) { auto s = slots(2); Var t; if (sym_choice(2, "alt")) t.o = V2{ s[0], "a" }; else t.o = V1{ s[0], true }; t.z = s[1]; trip(t); }
// wider fixed-size containers: one element shared with a later member, or two with each other
struct Wide { std::array<P, 6> a; std::tuple<P, std::string, P, P, std::vector<P>> t; std::pair<std::string, P> q; P z; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(t) & MEMBER_VARIABLE(q) & MEMBER_VARIABLE(z); } template <class F> void each(F f) const { for (auto& x : a) f(x); f(std::get<0>(t)); f(std::get<2>(t)); f(std::get<3>(t)); for (auto& x : std::get<4>(t)) f(x); f(q.second); f(z); } };
static P conc(int i) { auto p = std::make_shared<V>(); p->v = (signed char)i; return p; }
HARNESS(h_wide) { Wide t; std::vector<P*> s; for (auto& x : t.a) s.push_back(&x); std::get<1>(t.t) = "x"; std::get<4>(t.t).resize(3); s.push_back(&std::get<0>(t.t)); s.push_back(&std::get<2>(t.t)); s.push_back(&std::get<3>(t.t)); for (auto& x : std::get<4>(t.t)) s.push_back(&x); s.push_back(&t.q.second); s.push_back(&t.z); for (size_t i = 0; i < s.size(); i++) *s[i] = conc((int)i + 1); unsigned i = sym_choice((unsigned)s.size(), "i"), j = sym_choice((unsigned)s.size(), "j"); (*s[i])->v = sym_val<signed char>("v"); *s[j] = *s[i]; t.z = *s[j]; trip(t); }
// many objects under many keys, deep levels
struct Deep { std::map<std::string, std::vector<std::tuple<int, bool, std::map<std::string, P>>>> m; P z; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(m) & MEMBER_VARIABLE(z); } template <class F> void each(F f) const { for (auto& x : m) for (auto& y : x.second) for (auto& e : std::get<2>(y)) f(e.second); f(z); } };
HARNESS(h_deep) { Deep t; static const char* const K[] = { "a/b", "~", "", "a key that does not fit in a small string" }; unsigned n = 0, at = sym_choice(16, "at"); for (int i = 0; i < 4; i++) { auto& v = t.m[K[i]]; for (int j = 0; j < 2; j++) { std::map<std::string, P> m; for (int k = 0; k < 2; k++) { auto p = conc((int)n + 1); m[K[3 - i] + std::to_string(k)] = p; if (n++ == at) { p->v = sym_val<signed char>("v"); t.z = p; } } v.emplace_back(j, true, m); } } if (sym_choice(2, "alone")) t.z = conc(99); trip(t); }
// hundreds of objects in one container, one of them (or many) shared
static const unsigned AT[] = { 0, 1, 8, 9, 10, 11, 99, 100, 101, 127, 128, 129, 199, 254, 255, 256, 257, 299 };
template <class C, class F> static void many(C& t, F at) { unsigned k = sym_choice(20, "at"); if (k >= 18) { t.z = at(k == 18 ? 0 : 299); if (k == 18) for (unsigned i = 150; i < 300; i++) at(i) = at(i - 150); else at(299) = at(0); } else { at(AT[k])->v = sym_val<signed char>("v"); t.z = at(AT[k]); } trip(t); }
HARNESS(h_many_vector) { Vec t; for (int i = 0; i < 300; i++) t.v.push_back(conc(i % 100 + 1)); many(t, [&](unsigned i) -> P& { return t.v[i]; }); }
HARNESS(h_many_map) { Map t; auto key = [](unsigned i) { return (i % 3 ? "key/" : "a rather long key that is not inline ~") + std::to_string(i); }; for (int i = 0; i < 300; i++) t.m[key(i)] = conc(i % 100 + 1); many(t, [&](unsigned i) -> P& { return t.m[key(i)]; }); }
struct Rows { std::vector<std::vector<P>> v; std::vector<std::tuple<bool, P>> u; P z; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(v) & MEMBER_VARIABLE(u) & MEMBER_VARIABLE(z); } template <class F> void each(F f) const { for (auto& x : v) for (auto& y : x) f(y); for (auto& x : u) f(std::get<1>(x)); f(z); } };
HARNESS(h_many_rows) { Rows t; t.v.resize(12); for (int i = 0; i < 300; i++) { if (i < 130) t.v[i < 12 ? i : 11].push_back(conc(i % 100 + 1)); else t.u.emplace_back(true, conc(i % 100 + 1)); } many(t, [&](unsigned i) -> P& { return i < 12 ? t.v[i][0] : i < 130 ? t.v[11][i - 11] : std::get<1>(t.u[i - 130]); }); }
struct Sets { std::vector<std::set<P>> s; std::vector<P> v; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(s) & MEMBER_VARIABLE(v); } };
HARNESS(h_many_set) { Set t; std::vector<P> o; for (int i = 0; i < 300; i++) { o.push_back(conc(i % 100 + 1)); t.s.insert(o.back()); } unsigned k = sym_choice(18, "at"); std::vector<P> sorted(t.s.begin(), t.s.end()); sorted[AT[k]]->v = sym_val<signed char>("v"); t.v = { sorted[AT[k]], sorted[0], conc(3) }; std::string str = write_to_string(t); { Set w; sym_assert(deserialize(str, w), "accepted"); setCheck(t, w); } Document d; sym_assert(serialize_to_document(t, d), "stored"); { Set w; sym_assert(deserialize(d, w), "stored graph accepted"); setCheck(t, w); } sym_reach("round trip"); }
HARNESS(h_keylen) { Map t; std::string k = sweepStr(sweepLen()); for (unsigned char c : k) sym_assume(c >= 0x20); t.m[k] = mk(); t.m["x"] = conc(5); t.z = t.m[k]; trip(t); }
// a list of lists of lists ...: paths of many steps
struct Chain { signed char v = 0; std::vector<std::shared_ptr<Chain>> next; P p; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(v) & MEMBER_VARIABLE(next) & MEMBER_VARIABLE(p); } };
HARNESS(h_chain) { unsigned n = 1 + sym_choice(40, "depth"), k = sym_choice(3, "shared with"); auto root = std::make_shared<Chain>(); std::vector<std::shared_ptr<Chain>> all{ root }; for (unsigned i = 1; i < n; i++) { auto c = std::make_shared<Chain>(); all.back()->next.push_back(c); all.push_back(c); } for (auto& c : all) c->p = conc(1); all.back()->p = mk(); unsigned j = k == 0 ? 0 : k == 1 ? n / 2 : n - 1; all[j]->p = all.back()->p; std::string s; sym_assert(write_to_string(root, s), "a deep graph is written"); Document d; sym_assert(serialize_to_document(root, d), "a deep graph is stored");
  for (int way = 0; way < 2; way++) { std::shared_ptr<Chain> w; sym_assert(way ? deserialize(d, w) : deserialize(s, w), "a deep graph is accepted"); std::vector<P> a, b; for (auto c = root; c; c = c->next.empty() ? nullptr : c->next[0]) a.push_back(c->p); for (auto c = w; c; c = c->next.empty() ? nullptr : c->next[0]) b.push_back(c->p); compare(a, b); } sym_reach("round trip"); }
// references in a class that contains itself: only to an object that has been read completely
struct Node { signed char v = 0; std::optional<std::shared_ptr<Node>> n, m; std::vector<std::shared_ptr<Node>> l; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(v) & MEMBER_VARIABLE(n) & MEMBER_VARIABLE(m) & MEMBER_VARIABLE_DEFAULT(l); } };
static const char* const PATHS[] = { "/n", "/n/n", "/n/m", "/m", "/m/l/0", "/l/0", "/l/1", "", "/l", "/n/v", "/x", "/l/2", "/n/", "n", "/N", "//n" };
static std::shared_ptr<Node> nodeAt(const Node& r, unsigned i) { switch (i) { case 0: return *r.n; case 1: return *(*r.n)->n; case 2: return *(*r.n)->m; case 3: return *r.m; case 4: return (*r.m)->l[0]; case 5: return r.l[0]; default: return r.l[1]; } }
static std::string node(unsigned i, unsigned at, const std::string& ref) { if (i == at) return "{\"$ref\":\"" + ref + "\"}"; std::string s = "{\"v\":" + num_text(i + 1); if (i == 0) s += ",\"n\":" + node(1, at, ref) + ",\"m\":" + node(2, at, ref) + ",\"l\":[]"; else if (i == 3) s += ",\"l\":[" + node(4, at, ref) + "]"; else s += ",\"l\":[]"; return s + "}"; }
template <class R> static void selfRef() { unsigned at = sym_choice(7, "place"), to = sym_choice(16, "target"); bool hash = sym_choice(2, "fragment"); std::string ref = (hash ? "#" : "") + std::string(PATHS[to]); std::string s = "{\"v\":0,\"n\":" + node(0, at, ref) + ",\"m\":" + node(3, at, ref) + ",\"l\":[" + node(5, at, ref) + "," + node(6, at, ref) + "]}"; bool good = to < at && !(to == 0 && (at == 1 || at == 2)) && !(to == 3 && at == 4);
  auto look = [&](const Node& r) { sym_assert(nodeAt(r, at) == nodeAt(r, to) && nodeAt(r, at)->v == (int)to + 1 && nodeAt(r, at).use_count() >= 2, "a reference shares the object it names"); };
  { R w{}; bool ok = deserialize(s, w); sym_assert(ok == good, "a reference is accepted exactly when it names an object that has been read completely"); if (ok) { if constexpr (std::is_same_v<R, Node>) look(w); else look(*w); } } { Document d; d.Parse(s.c_str()); R w{}; sym_assert(deserialize(d, w) == good, "a reference in a document is accepted exactly when it names an object that has been read completely"); } sym_assert(thrown<R>(s) == !good, "a reference that cannot be resolved raises an exception"); sym_reach(good ? "good" : "bad"); }
HARNESS(h_self) { selfRef<Node>(); } HARNESS(h_self_root) { selfRef<std::shared_ptr<Node>>(); }
// an object that something else holds is not changed by reading into the pointer
HARNESS(h_prior) { auto old = conc(7); Two t{ old, old }; signed char v = sym_val<signed char>("v"); bool share = sym_choice(2, "share"); std::string s = "{\"a\":{\"v\":" + num_text(v) + "},\"b\":" + (share ? "{\"$ref\":\"/a\"}" : "{\"v\":3}") + "}"; sym_assert(deserialize(s, t), "accepted"); sym_assert(old->v == 7, "an object that something else holds is not changed"); sym_assert(t.a && t.a->v == v && (t.a == t.b) == share && t.a != old && t.b != old, "the pointers share exactly as the document says"); std::vector<P> l{ old, old, old }; sym_assert(deserialize("[{\"v\":1},{\"v\":2},{\"$ref\":\"/0\"}]", l) && old->v == 7 && l.size() == 3 && l[0]->v == 1 && l[1]->v == 2 && l[2] == l[0] && l[0] != l[1], "a list of shared objects is replaced"); sym_reach("prior"); }
