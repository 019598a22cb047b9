// C17: every call stands alone: no state is carried from one call to the next, and what is read from or written is not changed.
#include "long.hpp"
template <class T> static void same(bool r, const T& v, bool r2, const T& v2, const char* what) { sym_assert(r == r2, what); if (r) sym_assert(eq(v, v2), what); }
// a: the text in question; b: calls with this text come in between
template <class T> static void history(const std::string& a, const std::string& b) { std::string a0 = a; T p1{}, d1{}; bool p = parse(a, p1), d = deserialize(a, d1); sym_assert(a.size() == a0.size() && std::memcmp(a.data(), a0.data(), a.size()) == 0, "reading does not change the text");
  Document doc; doc.Parse(a.data()); Document copy; copy.CopyFrom(doc, copy.GetAllocator()); T x1{}; bool x = deserialize(doc, x1); sym_assert(doc == copy, "reading does not change the document"); same(x, x1, d, d1, "a text and its document give the same object");
  T pb{}, db{}; bool rb = parse(b, pb), qb = deserialize(b, db);
  std::string w1 = "old", w2 = "other"; Document s1, s2; bool w = p && write_to_string(p1, w1), s = p && serialize_to_document(p1, s1);
  { T j{}; (void)parse("[" + b, j); T k{}; (void)deserialize("{\"a\":" + b, k); T l{}; (void)parse("", l); (void)deserialize(b + ",", l); try { (void)parse<T>(b + "]"); } catch (const JsonParseError&) {} try { (void)deserialize<T>("[[" + b); } catch (const JsonParseError&) {} if (rb) { std::string o; sym_assert(write_to_string(pb, o), "written"); Document z; sym_assert(serialize_to_document(pb, z), "serialized"); } }
  { T v{}; bool r = parse(a, v); same(p, p1, r, v, "parsing gives the same result whatever calls came before"); }
  { T v{}; bool r = deserialize(a, v); same(d, d1, r, v, "deserializing gives the same result whatever calls came before"); }
  { T v{}; bool r = deserialize(doc, v); same(x, x1, r, v, "a document gives the same result as often as it is read"); sym_assert(doc == copy, "reading a document again does not change it"); }
  { T v{}, u{}; bool r = parse(b, v), q = deserialize(b, u); same(rb, pb, r, v, "the other text still parses the same"); same(qb, db, q, u, "the other text still deserializes the same"); }
  if (p) { sym_assert(write_to_string(p1, w2) == w && (!w || w1 == w2), "writing gives the same text whatever calls came before"); sym_assert(serialize_to_document(p1, s2) == s && (!s || s1 == s2), "serializing gives the same document whatever calls came before"); T v{}; (void)parse(a, v); sym_assert(eq(v, p1), "writing does not change the object"); }
  sym_reach(p ? "accepted" : "rejected"); }
template <class T> static void shaped() { Dev d{ 1 }, e{ 0 }; std::string a = text(shape<T>(d)), b = text(shape<T>(e)); history<T>(a, b); }
#define X(n, ...) HARNESS(h_##n) { shaped<__VA_ARGS__>(); }
SCALARS(X) CONTAINERS(X) OBJECTS(X)
#undef X
// the same with one given text in between
template <class T> static void given(const char* b) { Dev d{ 1 }; history<T>(text(shape<T>(d)), b); }
HARNESS(h_by_tuple) { given<T<int, Date, S>>("[5,\"2023-02-28\",\"x\"]"); } HARNESS(h_by_O3) { given<O3>("{\"a\":false,\"b\":true,\"c\":\"q\"}"); } HARNESS(h_by_spO3) { given<SP<O3>>("{\"a\":false,\"b\":true,\"c\":\"q\"}"); } HARNESS(h_by_ODer) { given<ODer>("{\"a\":true,\"c\":{\"a\":5},\"d\":[true]}"); }
#define X(n, ...) HARNESS(h_long_##n) { JV v = longTree<__VA_ARGS__>(); if (std::is_same_v<__VA_ARGS__, Big>) { g_missing = 0; __VA_ARGS__ t{}; (void)ref(v, t); if (g_missing) sym_end(); } std::string a = text(v); Salt s{ 99 }; history<__VA_ARGS__>(a, text(lng<__VA_ARGS__>(false, s, 5))); }
LONGC(X) LONGO(X)
#undef X
// one type after another: each text is offered to every type
template <class U> static bool both(const std::string& s) { U a{}, b{}; bool p = parse(s, a), d = deserialize(s, b); sym_assert(p == d && (!p || eq(a, b)), "both readers"); return p; }
HARNESS(h_types) { Dev dv{ 0 }; static const unsigned K = 6; unsigned k = sym_choice(K, "first"), m = sym_choice(K, "second"); std::string s[K]; s[0] = text(shape<int>(dv)); s[1] = text(shape<S>(dv)); s[2] = text(shape<V<bool>>(dv)); s[3] = text(shape<M<S>>(dv)); s[4] = "{\"a\":true,\"b\":" + quoted(S(1, sym_letter())) + "}"; s[5] = "[" + s[2] + "]"; bool r1[K], r2[K]; auto one = [&](unsigned i, bool* r) { r[0] = both<short>(s[i]); r[1] = both<S>(s[i]); r[2] = both<V<bool>>(s[i]); r[3] = both<M<S>>(s[i]); O2 a, b; r[4] = parse(s[i], a); (void)deserialize(s[i], b); r[5] = both<V<V<bool>>>(s[i]); }; one(k, r1); one(m, r2); bool r3[K]; one(k, r3); for (unsigned i = 0; i < K; i++) sym_assert(r1[i] == r3[i], "what a type accepts does not depend on what other types read before"); sym_reach("types"); }
// calls that fail to write come in between
struct Num3 { int k = 0; double a = 0; std::optional<float> b; S s; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(k) & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(b) & MEMBER_VARIABLE(s); } };
template <class X> static void put(const X& x, S& s, Document& d, bool& w, bool& q) { w = write_to_string(x, s); q = serialize_to_document(x, d); }
template <class X, class Y> static void between(const X& x, const Y& bad) { S s1 = "p", s2 = "q", s3; Document d1, d2, d3; bool w1, q1, w2, q2, w3, q3; put(x, s1, d1, w1, q1); put(bad, s3, d3, w3, q3); sym_assert(!w3 && !q3, "a number that is not finite is refused"); try { s3 = write_to_string(bad); sym_assert(false, "refused"); } catch (const JsonSerializationError&) {} try { (void)serialize_to_document(bad); sym_assert(false, "refused"); } catch (const JsonSerializationError&) {} put(x, s2, d2, w2, q2); sym_assert(w1 == w2 && q1 == q2 && w1, "whether an object can be written does not depend on calls that failed before"); sym_assert(s1 == s2 && d1 == d2, "what is written does not depend on calls that failed before"); S t = write_to_string(x); sym_assert(t == s1, "what is written does not depend on calls that failed before (value)"); sym_reach("refused"); }
HARNESS(h_refused) { double bad = sym_choice(2, "kind") ? NAN : -INFINITY; unsigned k = sym_choice(6, "bad"), m = sym_choice(4, "good"); Num3 g; g.k = sym_val<int>("k"); g.a = 2.5; g.s = Gen<S>::make(); Num3 b = g; b.a = bad; Num3 c = g; c.b = (float)bad; auto with = [&](const auto& y) { switch (m) { case 0: between(g, y); break; case 1: between(V<int>{ g.k, 1 }, y); break; case 2: between(M<S>{ { g.s, "v" } }, y); break; case 3: between(g.s, y); break; } }; switch (k) { case 0: with(bad); break; case 1: with(b); break; case 2: with(c); break; case 3: with(V<Num3>{ g, g, b }); break; case 4: with(M<V<double>>{ { "a", { 1, bad } } }); break; case 5: with(T<S, Num3, bool>{ "s", c, true }); break; } }
// two objects read from one document share nothing
struct Node { int v = 0; SP<O2> p; SP<O2> q; UP<S> u; V<SP<int>> l; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(v) & MEMBER_VARIABLE(p) & MEMBER_VARIABLE(q) & MEMBER_VARIABLE(u) & MEMBER_VARIABLE(l); } };
HARNESS(h_alias) { Node n; n.v = sym_val<int>("v"); n.p = std::make_shared<O2>(O2::gen()); n.q = sym_choice(2, "shared") ? n.p : std::make_shared<O2>(O2::gen()); n.u = std::make_unique<S>(Gen<S>::make()); n.l = { std::make_shared<int>(sym_val<int>("l")), std::make_shared<int>(7) }; bool sh = n.p == n.q; O2 v0 = *n.p, v1 = *n.q; S s0 = *n.u; int l0 = *n.l[0];
  Document d; sym_assert(serialize_to_document(n, d), "serialized"); std::string t; sym_assert(write_to_string(n, t), "written"); auto a = std::make_unique<Node>(), b = std::make_unique<Node>(); bool viaText = sym_choice(2, "text"); sym_assert(viaText ? deserialize(t, *a) && deserialize(t, *b) : deserialize(d, *a) && deserialize(d, *b), "read twice");
  sym_assert(a->p != b->p && a->p != n.p && a->q != b->q && a->q != n.q && a->l[0] != b->l[0] && a->p.get() != (void*)0, "two reads share no object"); sym_assert(a->p.use_count() == (sh ? 2 : 1) && a->l[1].use_count() == 1 && n.p.use_count() == (sh ? 2 : 1), "nothing else holds on to an object that was read or written");
  a->p->b += "x"; a->q->a = !a->q->a; *a->u += "y"; *a->l[0] = 1; a.reset(); sym_assert(*b->p == v0 && *b->q == v1 && *b->u == s0 && *b->l[0] == l0 && b->v == n.v, "changing one object does not change another that was read from the same document"); sym_assert(*n.p == v0 && *n.q == v1 && *n.u == s0, "an object that was written is unchanged"); std::string t2; sym_assert(write_to_string(n, t2) && t == t2, "writing the same object twice gives the same text"); sym_reach(sh ? "shared" : "separate"); }
// constructors that themselves read and write
static int g_depth;
struct Inner { bool b = false; M<bool> m; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(b) & MEMBER_VARIABLE(m); } };
struct Reent { int v = 0; M<bool> m; SP<Inner> i; Reent() { if (g_depth == 0) { g_depth++; sym_assert(parse("{\"a\":true,\"long key that is not inline\":false}", m), "a parser may be used inside a parser"); i = deserialize<SP<Inner>>("{\"b\":true,\"m\":{\"x\":true}}"); sym_assert(write_to_string(m) == "{\"a\":true,\"long key that is not inline\":false}", "a writer may be used inside a reader"); try { (void)parse<V<bool>>("[true,1]"); sym_assert(false, "inner failure"); } catch (const JsonParseError&) {} g_depth--; } } template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(v) & MEMBER_VARIABLE(i); } };
HARNESS(h_reent) { int n = sym_val<int>("n"), k = sym_val<int>("k"); bool c = sym_bool("c"); std::string s = "[{\"v\":" + num_text(n) + ",\"i\":{\"b\":" + (c ? "true" : "false") + ",\"m\":{}}},{\"v\":" + num_text(k) + ",\"i\":{\"b\":true,\"m\":{\"k\":true}}}]"; V<SP<Reent>> a, b; sym_assert(parse(s, a) && deserialize(s, b), "reading works while constructors read"); for (auto* v : { &a, &b }) sym_assert(v->size() == 2 && (*v)[0]->v == n && (*v)[1]->v == k && (*v)[0]->i->b == c && (*v)[0]->i->m.empty() && (*v)[1]->i->m.size() == 1 && (*v)[1]->m.size() == 2, "inner calls do not disturb the outer call"); sym_reach("reent"); }
// many calls of one kind, or calls with large documents, come in between
struct Mix { S s; SP<O2> p; SP<O2> q; V<short> l; std::optional<Date> d; M<bool> m; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(s) & MEMBER_VARIABLE(p) & MEMBER_VARIABLE(q) & MEMBER_VARIABLE(l) & MEMBER_VARIABLE(d) & MEMBER_VARIABLE(m); } };
struct Flat { S s; V<short> l; M<bool> m; Date d{}; byte_vector b; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(s) & MEMBER_VARIABLE(l) & MEMBER_VARIABLE(m) & MEMBER_VARIABLE(d) & MEMBER_VARIABLE(b); } };
struct Deep { V<Deep> c; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(c); } };
static void calls(unsigned kind, unsigned n, unsigned size) { std::string pad(size, 'p'); for (unsigned i = 0; i < n; i++) switch (kind) {
  case 0: { V<S> v; sym_assert(parse("[\"" + pad + "\",\"b\"]", v) && v.size() == 2, "read"); break; }
  case 1: { V<V<Flat>> v; sym_assert(!parse("[[{\"s\":\"" + pad + "\",\"l\":[true]}]]", v), "not read"); break; }
  case 2: { Mix m; sym_assert(deserialize("{\"s\":\"" + pad + "\",\"p\":{\"a\":true,\"b\":\"y\"},\"q\":{\"$ref\":\"/p\"},\"l\":[],\"m\":{\"k\":true}}", m) && m.p == m.q, "read"); break; }
  case 3: { Mix m; sym_assert(!deserialize("{\"s\":\"" + pad + "\",\"p\":{\"a\":true,\"b\":\"y\"},\"q\":{\"$ref\":\"/r\"},\"l\":[],\"m\":{}}", m), "not read"); try { (void)deserialize<V<Flat>>("[{\"s\":\"" + pad + "\"}]"); sym_assert(false, "not read"); } catch (const JsonDeserializationError&) {} break; }
  case 4: { Mix m; m.s = pad; m.p = m.q = std::make_shared<O2>(); sym_assert(write_to_string(m).size() > size, "written"); Document d; sym_assert(serialize_to_document(m, d), "serialized"); break; }
  case 5: { std::string o; sym_assert(!write_to_string(T<S, double>{ pad, NAN }, o) && o.empty(), "not written"); break; }
  case 6: { V<bool> v; sym_assert(!parse("[true," + pad, v), "malformed"); sym_assert(!deserialize("[true,\"" + pad, v), "malformed"); Date d; sym_assert(!parse("\"2023-02-30\"", d), "no date"); byte_vector b; sym_assert(!parse("\"A===\"", b), "no Base64"); break; }
  case 7: { std::string t; unsigned k = 10; for (unsigned j = 0; j < k; j++) t += "{\"c\":["; t += pad.empty() ? "" : "true"; for (unsigned j = 0; j < k; j++) t += "]}"; Deep e; sym_assert(parse(t, e) == pad.empty(), "nested"); break; } } }
static void after() { short x = sym_val<short>("x"); bool c = sym_bool("c"); S s(2, sym_letter()); std::string B = c ? "true" : "false", t = "{\"s\":" + ::quoted(s) + ",\"l\":[" + num_text(x) + "," + num_text(2) + "],\"m\":{\"k\":" + B + "},\"d\":\"2024-02-29\",\"b\":\"AQI=\"}"; auto ok = [&](const Flat& f) { return f.s == s && f.l == V<short>{ x, 2 } && f.m.size() == 1 && f.m.at("k") == c && f.b.size() == 2 && (unsigned)f.d.day() == 29; }; Flat f; sym_assert(parse(t, f) && ok(f), "parsing does not depend on earlier calls"); Flat g; sym_assert(deserialize(t, g) && ok(g), "deserializing does not depend on earlier calls"); std::string o; sym_assert(write_to_string(f, o) && o == t, "writing does not depend on earlier calls"); Document d; sym_assert(serialize_to_document(g, d) && document_to_string(d) == t, "serializing does not depend on earlier calls");
  Mix m; std::string u = "{\"s\":\"\",\"p\":{\"a\":" + B + ",\"b\":\"z\"},\"q\":{\"$ref\":\"/p\"},\"l\":[" + num_text(x) + "],\"m\":{}}"; sym_assert(deserialize(u, m) && m.p && m.p == m.q && m.p.use_count() == 2 && m.p->a == c && m.l[0] == x && !m.d, "references do not depend on earlier calls"); sym_assert(write_to_string(m) == u, "written references do not depend on earlier calls"); m.q = std::make_shared<O2>(*m.p); sym_assert(write_to_string(m).find("$ref") == std::string::npos, "no reference is written to an object of another call"); Mix bad; sym_assert(!deserialize("{\"s\":\"\",\"p\":{\"$ref\":\"/q\"},\"q\":{\"a\":true,\"b\":\"\"},\"l\":[],\"m\":{}}", bad), "no reference is resolved with an object of another call"); V<bool> w; sym_assert(!parse("[" + B + ",1]", w), "a misfit is reported whatever came before"); sym_reach("often"); }
HARNESS(h_often) { static const unsigned N[] = { 1, 2, 3, 8, 17, 33, 70, 130, 260, 300 }; unsigned k = sym_choice(8, "kind"), n = N[sym_choice(10, "calls")]; calls(k, n, k == 7 ? 0 : 3); calls((k + 1 + sym_choice(2, "next")) % 8, 1, 0); after(); }
HARNESS(h_large) { unsigned k = sym_choice(8, "kind"); calls(k, 1, sweepLen()); after(); }
HARNESS(h_mixed) { unsigned a = sym_choice(8, "first"), b = sym_choice(8, "second"), c = sym_choice(8, "third"); calls(a, 1, 20); calls(b, 1, 2); calls(c, 1, 40); after(); }
