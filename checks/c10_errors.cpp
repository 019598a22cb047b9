// C10: functions that return bool never throw; functions that return a value throw the documented exception exactly when the former fail.
#include "long.hpp"
#include "numctx.hpp"
enum { OK, PARSE, DESER, SER, OTHER };
template <class F> static int run(F f) { try { f(); return OK; } catch (const JsonParseError&) { return PARSE; } catch (const JsonDeserializationError&) { return DESER; } catch (const JsonSerializationError&) { return SER; } catch (...) { return OTHER; } }
template <class T> static void reading(const std::string& s) {
  bool wf; { Document d; d.Parse(s.c_str()); wf = !d.HasParseError(); }
  { T a{}; bool r = false; sym_assert(run([&] { r = parse(s, a); }) == OK, "parsing into an object does not throw"); std::optional<T> b; int e = run([&] { b = parse<T>(s); }); sym_assert(e == (r ? OK : PARSE), "the parser throws a parse error exactly when it fails"); if (r) sym_assert(eq(a, *b), "both ways to parse give the same object"); }
  bool r = false; T a{}; sym_assert(run([&] { r = deserialize(s, a); }) == OK, "deserializing into an object does not throw"); int want = r ? OK : wf ? DESER : PARSE;
  { std::optional<T> b; sym_assert(run([&] { b = deserialize<T>(s); }) == want, "the deserializer throws exactly when it fails"); if (r) sym_assert(eq(a, *b), "both ways to deserialize give the same object"); }
  { std::string t = s; T b{}; bool q = false; sym_assert(run([&] { q = deserialize(std::move(t), b); }) == OK, "deserializing in place does not throw"); sym_assert(q == r && (!r || eq(a, b)), "deserializing in place gives the same object"); }
  { std::string t = s; std::optional<T> b; sym_assert(run([&] { b = deserialize<T>(std::move(t)); }) == want, "deserializing in place throws exactly when it fails"); if (r) sym_assert(eq(a, *b), "deserializing in place returns the same object"); }
  { Document d = string_to_document(s); T b{}; bool q = false; sym_assert(run([&] { q = deserialize(d, b); }) == OK, "deserializing a document does not throw"); sym_assert(q == r && (!r || eq(a, b)), "deserializing a document gives the same object"); }
  { Document d = string_to_document(s); std::optional<T> b; sym_assert(run([&] { b = deserialize<T>(d); }) == want, "deserializing a document throws exactly when it fails"); if (r) sym_assert(eq(a, *b), "deserializing a document returns the same object"); }
  sym_print("r", r); sym_reach(r ? "accepted" : wf ? "rejected" : "malformed"); }
template <class T> static void shaped() { Dev d{ 1 }; reading<T>(text(shape<T>(d))); }
#define X(n, ...) HARNESS(h_shape_##n) { shaped<__VA_ARGS__>(); }
SCALARS(X) CONTAINERS(X) OBJECTS(X)
#undef X
// text with one arbitrary byte at any position, or cut off at any position
template <class T> static void damaged(std::string s) { unsigned k = sym_choice((unsigned)s.size(), "pos"); if (sym_choice(2, "cut")) s.resize(k); else { char c; sym_bytes(&c, 1, "byte"); sym_assume(c != 0); s[k] = c; } reading<T>(s); }
struct Two { int a = 0; S b; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(b); } bool operator==(const Two& o) const { return a == o.a && eq(b, o.b); } };
HARNESS(h_text_bool) { damaged<bool>("true"); } HARNESS(h_text_int) { damaged<int>("-120"); } HARNESS(h_text_str) { damaged<S>("\"a\\u00e9b\""); } HARNESS(h_text_vec) { damaged<V<bool>>("[true, false]"); } HARNESS(h_text_vint) { damaged<V<unsigned char>>("[1,22]"); } HARNESS(h_text_map) { damaged<M<bool>>("{\"k\":true}"); } HARNESS(h_text_obj) { damaged<Two>("{\"a\":7,\"b\":\"x\"}"); } HARNESS(h_text_time) { damaged<timestamp>("\"2023-02-28T12:30:59Z\""); } HARNESS(h_text_bytes) { damaged<byte_vector>("\"AQI=\""); } HARNESS(h_text_tuple) { damaged<T<bool, S>>("[true,\"x\"]"); }
// every number offered to every arithmetic type
template <class T> static void numbers() { Num n = number(); switch (sym_choice(4, "context")) { case 0: reading<T>(n.text); break; case 1: reading<V<T>>("[1," + n.text + "]"); break; case 2: reading<M<T>>("{\"k\":" + n.text + "}"); break; case 3: reading<::T<bool, T, S>>("[true," + n.text + ",\"\"]"); break; } }
#define X(n, T) HARNESS(h_num_##n) { numbers<T>(); }
X(char, char) X(schar, signed char) X(uchar, unsigned char) X(short, short) X(ushort, unsigned short) X(int, int) X(uint, unsigned) X(long, long) X(ulong, unsigned long) X(llong, long long) X(ullong, unsigned long long) X(float, float) X(double, double) X(plain, PlainEnum) X(uenum, UEnum) X(lenum, LEnum)
#undef X
// writing
template <class T> static void writing(const T& v) { std::string s = "untouched", t; bool r = false; sym_assert(run([&] { r = write_to_string(v, s); }) == OK, "writing into a string does not throw"); sym_assert(run([&] { t = write_to_string(v); }) == (r ? OK : SER), "writing throws exactly when it fails"); if (r) sym_assert(s == t, "both ways to write give the same text"); else sym_assert(s == "untouched", "a failed write leaves the string as it was");
  Document d; bool q = false; sym_assert(run([&] { q = serialize_to_document(v, d); }) == OK, "serializing into a document does not throw"); std::optional<Document> e; sym_assert(run([&] { e = serialize_to_document(v); }) == (q ? OK : SER), "serializing throws exactly when it fails"); if (q) sym_assert(d == *e, "both ways to serialize give the same document"); sym_reach(r && q ? "written" : "refused"); }
static double num() { static const double N[] = { 1.5, NAN, INFINITY, -INFINITY }; return N[sym_choice(4, "num")]; }
struct F1 { float a = 0; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a); } }; struct F3 { bool z = true; std::optional<double> a; V<F1> b; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(z) & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(b); } };
HARNESS(h_write) { switch (sym_choice(8, "type")) { case 0: writing(num()); break; case 1: writing((float)num()); break; case 2: writing(V<double>{ num(), num() }); break; case 3: { F3 f; f.a = num(); f.b.push_back(F1{ (float)num() }); writing(f); break; } case 4: writing(M<float>{ { "a", (float)num() } }); break; case 5: writing(T<bool, double>{ true, num() }); break; case 6: writing(std::make_unique<double>(num())); break; case 7: writing(V<std::variant<S, double>>{ { S("x") }, { num() } }); break; } }
#define X(n, ...) HARNESS(h_write_##n) { writing<__VA_ARGS__>(Gen<__VA_ARGS__>::make()); }
X(Every, Every) X(O5, O5)
#undef X
// large documents
#define X(n, ...) HARNESS(h_long_##n) { reading<__VA_ARGS__>(text(longTree<__VA_ARGS__>())); }
LONGC(X) LONGO(X)
#undef X
// sizes up to 300, strings and keys of up to 5000 bytes
#define X(n, l, ...) HARNESS_SW(h_sweep_##n) { reading<__VA_ARGS__>(text(sweepTree<__VA_ARGS__>(l))); }
SWEEPC(X) SWEEPO(X)
#undef X
#define X(n, k, ...) HARNESS_SW(h_len_##n) { reading<__VA_ARGS__>(text(lenTree<__VA_ARGS__>(k))); }
LENC(X) LENO(X)
#undef X
