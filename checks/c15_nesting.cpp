// C15: nesting of any depth and exceptions from user code or memory exhaustion never corrupt a reader.
#include "long.hpp"
#ifndef MAXDEPTH
#define MAXDEPTH 200
#endif
#ifndef SUREDEPTH
#define SUREDEPTH 20
#endif
enum { OK, PARSE, DESER, SER, NOMEM, BOOM, OTHER };
struct Boom { int x; };
template <class F> static int run(F f) { try { f(); return OK; } catch (const JsonParseError&) { return PARSE; } catch (const JsonDeserializationError&) { return DESER; } catch (const JsonSerializationError&) { return SER; } catch (const std::bad_alloc&) { return NOMEM; } catch (const Boom&) { return BOOM; } catch (...) { return OTHER; } }
// ---- classes that contain themselves --------------------------------------------------------------------------------
struct RV { int v = 0; V<RV> c; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(v) & MEMBER_VARIABLE(c); } bool operator==(const RV& o) const { return v == o.v && eq(c, o.c); } static RV wrap(RV&& i, unsigned k) { RV r; r.v = k == 0 ? sym_val<int>("v") : (int)k; r.c.push_back(std::move(i)); return r; } };
struct RM { M<RM> c; std::optional<short> n; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(c) & MEMBER_VARIABLE(n); } bool operator==(const RM& o) const { return eq(c, o.c) && eq(n, o.n); } static RM wrap(RM&& i, unsigned k) { RM r; if (k == 1) r.n = sym_val<short>("n"); r.c.emplace(k & 1 ? "a" : "b/", std::move(i)); return r; } };
struct RU { S s; int n = 0; std::optional<UP<RU>> c; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(s) & MEMBER_VARIABLE(n) & MEMBER_VARIABLE(c); } bool operator==(const RU& o) const { return s == o.s && n == o.n && eq(c, o.c); } static RU wrap(RU&& i, unsigned k) { RU r; r.n = k == 1 ? sym_val<int>("n") : (int)k; r.s = "level"; r.c = std::make_unique<RU>(std::move(i)); return r; } };
struct RS { std::set<V<bool>> s; std::optional<SP<V<RS>>> c; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(s) & MEMBER_VARIABLE(c); } bool operator==(const RS& o) const { return eq(s, o.s) && eq(c, o.c); } static RS wrap(RS&& i, unsigned k) { RS r; r.s.insert(V<bool>{ true, (k & 1) != 0 }); r.c = std::make_shared<V<RS>>(); (*r.c)->push_back(std::move(i)); return r; } };
struct RT { unsigned long long z = 0; V<T<bool, V<RT>, S>> c; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(z) & MEMBER_VARIABLE(c); } bool operator==(const RT& o) const { return z == o.z && eq(c, o.c); } static RT wrap(RT&& i, unsigned k) { RT r; r.z = k == 0 ? sym_val<unsigned long long>("z") : k; V<RT> v; v.push_back(std::move(i)); r.c.emplace_back(true, std::move(v), "t"); return r; } };
// the innermost value does not fit (bad) or fits
template <class R> static void depth(bool last, const char* good, const char* bad) { unsigned d = sym_choice(MAXDEPTH + 1, "depth"); R v; for (unsigned i = 0; i < d; i++) v = R::wrap(std::move(v), i); std::string s; sym_assert(write_to_string(v, s), "a nested value is written"); { R w; sym_assert(deserialize(s, w) && w == v, "the document reader returns the nested value"); }
  if (bad && sym_choice(2, "bad")) { size_t p = last ? s.rfind(good) : s.find(good); sym_assert(p != std::string::npos, "innermost"); s.replace(p, std::strlen(good), bad); R w; bool r = true; sym_assert(run([&] { r = parse(s, w); }) == OK && !r, "a misfit at any depth is reported as a failure"); sym_assert(run([&] { (void)parse<R>(s); }) == PARSE, "a misfit at any depth raises a parse error"); sym_assert(!deserialize(s, w), "a misfit at any depth is rejected by the document reader"); sym_reach("misfit"); return; }
  R w; bool r = false; sym_assert(run([&] { r = parse(s, w); }) == OK, "parsing nested values does not throw"); if (r) sym_assert(w == v, "the parser returns the nested value"); if (d <= SUREDEPTH) sym_assert(r, "the parser accepts moderately nested values");
  std::optional<R> x; size_t off = 0; int e = run([&] { try { x = parse<R>(s); } catch (const JsonParseError& q) { off = q.offset; throw; } }); sym_assert(e == (r ? OK : PARSE), "the parser raises a parse error exactly when it fails"); if (r) sym_assert(*x == v, "both ways to parse return the nested value"); else sym_assert(off <= s.size(), "the offset is inside the text"); sym_reach(r ? "accepted" : "too deep"); }
HARNESS(h_vec) { depth<RV>(true, "\"c\":[]", "\"c\":[7]"); } HARNESS(h_map) { depth<RM>(false, "{\"c\":{}}", "{\"c\":0}"); } HARNESS(h_ptr) { depth<RU>(true, "{\"s\":\"\",", "{\"s\":\"\",\"c\":[],"); } HARNESS(h_set) { depth<RS>(true, "\"s\":[]}", "\"s\":[[1]]}"); } HARNESS(h_tup) { depth<RT>(true, "\"c\":[]", "\"c\":{}"); }
// arrays nested more deeply than the type allows
HARNESS(h_brackets) { unsigned d = sym_choice(MAXDEPTH + 1, "depth"); std::string s; for (unsigned i = 0; i < d; i++) s += "["; if (sym_choice(2, "closed")) for (unsigned i = 0; i < d; i++) s += "]"; V<V<V<bool>>> w; bool r = true, q = true; sym_assert(run([&] { r = parse(s, w); }) == OK, "parsing brackets does not throw"); bool fits = d >= 1 && d <= 3 && s.size() == 2 * d; sym_assert(r == fits, "brackets are accepted exactly when the type has as many levels"); sym_assert(run([&] { q = deserialize(s, w); }) == OK && q == fits, "brackets are deserialized exactly when the type has as many levels"); sym_reach(fits ? "fits" : "rejected"); }
// statically nested containers
using N4 = V<V<V<V<bool>>>>; using N8 = V<V<V<V<N4>>>>; using N12 = M<M<M<M<N8>>>>;
HARNESS(h_static) { N12 t; N4 in; in.push_back({ { { sym_bool("b"), true }, {} } }); N8 v8; v8.push_back({ { { in } } }); t["a"]["b"]["c"]["d"] = v8; std::string s; N12 w, x; sym_assert(write_to_string(t, s) && parse(s, w) && eq(t, w) && deserialize(s, x) && eq(t, x), "containers of twelve levels round-trip"); sym_reach("static"); }
// ---- exceptions from constructors of user types ------------------------------------------------------------------------
static unsigned g_fuse; static int g_alive;
struct Bomb { int a = 0; Bomb() { tick(); } Bomb(const Bomb& o) : a(o.a) { tick(); } Bomb(Bomb&& o) noexcept : a(o.a) { g_alive++; } Bomb& operator=(const Bomb&) = default; ~Bomb() { g_alive--; } static void tick() { if (g_fuse && --g_fuse == 0) throw Boom{ 1 }; g_alive++; } template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a); } bool operator<(const Bomb& o) const { return a < o.a; } };
// every # is an arbitrary number, every ? an arbitrary letter
static std::string fill(const char* t) { std::string s; for (; *t; t++) if (*t == '#') s += num_text(sym_val<int>("n")); else if (*t == '?') { char c = (char)sym_val<unsigned char>("l"); sym_assume(c >= 'a' && c <= 'z'); s += c; } else s += *t; return s; }
template <class C> static void explode(const char* text) { std::string s = fill(text); { C w; g_fuse = 0; sym_assert(parse(s, w) && deserialize(s, w), "accepted"); } int alive = g_alive; uint64_t live = sym_live(); unsigned n = 1 + sym_choice(12, "fuse"); bool viaParse = sym_choice(2, "parse"); int e; { C w; g_fuse = n; bool r = false; e = run([&] { r = viaParse ? parse(s, w) : deserialize(s, w); }); g_fuse = 0; sym_assert(e == BOOM || (e == OK && r), "an exception of a constructor reaches the caller"); }
  sym_assert(g_alive == alive, "every object is destroyed exactly once after an exception"); sym_assert(sym_live() == live, "nothing is leaked after an exception"); sym_reach(e == OK ? "intact" : "exception"); }
HARNESS(h_boom_vup) { explode<V<UP<Bomb>>>("[{\"a\":#},{\"a\":#}]"); } HARNESS(h_boom_msp) { explode<M<SP<Bomb>>>("{\"k\":{\"a\":#},\"a longer key than fits inline\":{\"a\":#}}"); } HARNESS(h_boom_sup) { explode<std::set<SP<Bomb>>>("[{\"a\":#},{\"a\":#}]"); } HARNESS(h_boom_set) { explode<std::set<Bomb>>("[{\"a\":#},{\"a\":#}]"); } HARNESS(h_boom_vec) { explode<V<Bomb>>("[{\"a\":#},{\"a\":#},{\"a\":#}]"); } HARNESS(h_boom_nest) { explode<M<V<std::set<V<SP<Bomb>>>>>>("{\"k\":[[[{\"a\":#}],[{\"a\":#}]]]}"); }
struct BO { std::optional<Bomb> a; UP<Bomb> b; V<SP<Bomb>> c; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(b) & MEMBER_VARIABLE(c); } };
HARNESS(h_boom_obj) { explode<BO>("{\"a\":{\"a\":#},\"b\":{\"a\":#},\"c\":[{\"a\":#}]}"); }
// ---- memory exhaustion ---------------------------------------------------------------------------------------------------
#ifndef NEWS
#define NEWS 40
#endif
template <class C> static void starve(const char* text) { std::string s = fill(text), first; C v; Document doc; sym_assert(parse(s, v) && deserialize(s, v) && write_to_string(v, first) && serialize_to_document(v, doc), "accepted"); uint64_t live = sym_live(); unsigned n = 1 + sym_choice(NEWS, "new"), k = sym_choice(4, "path"); int e = OK; { C w; bool r = false; std::string out; Document d; sym_fail_new(n); e = run([&] { switch (k) { case 0: r = parse(s, w); break; case 1: r = deserialize(s, w); break; case 2: r = write_to_string(v, out); break; case 3: r = serialize_to_document(v, d); break; } }); sym_fail_new(0); sym_assert(e == NOMEM || (e == OK && r), "memory exhaustion reaches the caller as std::bad_alloc"); if (e == OK && k < 2) sym_assert(eq(w, v), "the value is complete"); if (e == OK && k == 2) sym_assert(out == first, "the text is complete"); }
  sym_assert(sym_live() == live, "nothing is leaked when memory is exhausted"); if (e == NOMEM) sym_reach("exhausted"); }
HARNESS(h_mem_vstr) { starve<V<S>>("[\"a string that does no? fi? inline\",\"b\",\"another string that does not f?t inline\"]"); } HARNESS(h_mem_map) { starve<M<V<S>>>("{\"a key that does not fit inl?ne\":[\"a string that does no? fi? inline\"],\"b\":[]}"); } HARNESS(h_mem_sptr) { starve<std::set<SP<S>>>("[\"a string that does no? fi? inline\"]"); } HARNESS(h_mem_set) { starve<std::set<S>>("[\"a string that does no? fi? inline\",\"another string that does not f?t inline\"]"); } HARNESS(h_mem_um) { starve<UM<UP<V<int>>>>("{\"a\":[#,2,#],\"a key that does not fit inl?ne\":[#]}"); } HARNESS(h_mem_obj) { starve<V<O5>>("[{\"b\":true,\"c\":false,\"d\":{\"b\":\"a string that does no? fi? inline\"},\"e\":[{\"a\":true}]}]"); } HARNESS(h_mem_every) { starve<Every>("{\"n\":\"b\",\"y\":\"AQI=\",\"t\":\"2023-02-28T12:30:59Z\",\"d\":\"2023-02-28\",\"p\":7,\"f\":1.5,\"q\":[true,\"x\"],\"u\":{\"a\":#},\"s\":{\"a\":true,\"b\":\"a string that does no? fi? inline\"}}"); }
