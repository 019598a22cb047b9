// C19: what is written is well-formed JSON, and a number that JSON cannot express is refused wherever it is.
#include "long.hpp"
#include <persistence/dictionary.hpp>
// a strict recogniser of RFC 8259 texts (and, under the number token abstraction, of number tokens)
struct Scan { const unsigned char* p; const unsigned char* e; bool lit(const char* s) { size_t n = std::strlen(s); if ((size_t)(e - p) < n || std::memcmp(p, s, n)) return false; p += n; return true; }
  bool number() { if (p < e && *p == 2) { unsigned n = p[1] == 'D' ? 10 : 11; if ((size_t)(e - p) < n) return false; p += n; return true; } if (p < e && *p == '-') p++; if (p == e || *p < '0' || *p > '9') return false; if (*p == '0') p++; else while (p < e && *p >= '0' && *p <= '9') p++; if (p < e && *p == '.') { p++; if (p == e || *p < '0' || *p > '9') return false; while (p < e && *p >= '0' && *p <= '9') p++; } if (p < e && (*p == 'e' || *p == 'E')) { p++; if (p < e && (*p == '+' || *p == '-')) p++; if (p == e || *p < '0' || *p > '9') return false; while (p < e && *p >= '0' && *p <= '9') p++; } return true; }
  bool string() { if (p == e || *p != '"') return false; p++; for (;;) { if (p == e || *p < 0x20) return false; if (*p == '"') { p++; return true; } if (*p == '\\') { p++; if (p == e) return false; if (*p == 'u') { p++; for (int i = 0; i < 4; i++, p++) if (p == e || !((*p >= '0' && *p <= '9') || (*p >= 'a' && *p <= 'f') || (*p >= 'A' && *p <= 'F'))) return false; continue; } if (!std::strchr("\"\\/bfnrt", *p)) return false; } p++; } }
  bool value() { if (p == e) return false; switch (*p) { case 'n': return lit("null"); case 't': return lit("true"); case 'f': return lit("false"); case '"': return string(); case '[': p++; if (p < e && *p == ']') { p++; return true; } for (;;) { if (!value() || p == e) return false; if (*p == ']') { p++; return true; } if (*p++ != ',') return false; }
      case '{': p++; if (p < e && *p == '}') { p++; return true; } for (;;) { if (!string() || p == e || *p++ != ':' || !value() || p == e) return false; if (*p == '}') { p++; return true; } if (*p++ != ',') return false; } default: return number(); } } };
static bool wellformed(const std::string& s) { Scan c{ (const unsigned char*)s.data(), (const unsigned char*)s.data() + s.size() }; return c.value() && c.p == c.e; }
template <class T> static void writing(const T& v, bool can) { std::string s = "untouched"; bool r = write_to_string(v, s); sym_assert(r == can, "an object is written exactly when its numbers are finite"); if (r) sym_assert(wellformed(s), "what is written is well-formed"); else sym_assert(s == "untouched", "a refused write leaves the string as it was");
  bool thrown = false; std::string t; try { t = write_to_string(v); } catch (const JsonSerializationError&) { thrown = true; } sym_assert(thrown == !can && (thrown || s == t), "an exception is thrown exactly when writing is refused");
  Document d; bool q = serialize_to_document(v, d); sym_assert(q == can, "an object is serialized exactly when its numbers are finite"); thrown = false; try { Document e = serialize_to_document(v); sym_assert(document_to_string(e) == s, "the document has the same text"); } catch (const JsonSerializationError&) { thrown = true; } sym_assert(thrown == !can, "an exception is thrown exactly when serializing is refused"); sym_reach(can ? "written" : "refused"); }
// every value of every type is written as well-formed text
#define X(n, ...) HARNESS(h_all_##n) { writing<__VA_ARGS__>(Gen<__VA_ARGS__>::make(), true); }
X(bool, bool) X(schar, signed char) X(ushort, unsigned short) X(int, int) X(ulong, unsigned long) X(str, S) X(bytes, byte_vector) X(time, timestamp) X(date, Date) X(named, Named) X(plain, PlainEnum) X(null, std::nullptr_t) CONTAINERS(X) OBJECTS(X) X(Every, Every) X(O5, O5)
#undef X
template <class T> static void large(const JV& v) { T t{}; g_missing = 0; if (!ref(v, t) || g_missing) sym_end(); writing(t, true); }
#define X(n, ...) HARNESS(h_long_##n) { large<__VA_ARGS__>(longTree<__VA_ARGS__>()); }
LONGC(X) LONGO(X)
#undef X
// every double and every float, finite or not, in every position
static bool isFinite(double d) { uint64_t u; std::memcpy(&u, &d, 8); return (u >> 52 & 0x7ff) != 0x7ff; } static bool isFinite(float f) { uint32_t u; std::memcpy(&u, &f, 4); return (u >> 23 & 0xff) != 0xff; }
template <class F> struct Mem { F a = 0; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a); } };
template <class F> struct Mem3 { bool x = true; F a = 0; std::optional<F> b; S y; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(x) & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(b) & MEMBER_VARIABLE(y); } };
template <class F> struct Der : Mem<F> { bool z = false; F d = 0; template <class A> constexpr auto persist(A& ar) { return this->Mem<F>::persist(ar) & MEMBER_VARIABLE_DEFAULT(d) & MEMBER_VARIABLE(z); } };
template <class F> static void floats() { F x = sym_val<F>("x"), y = sym_val<F>("y"); bool f = isFinite(x), g = isFinite(y), b = f & g; const F one = 1.5; switch (sym_choice(24, "where")) {
  case 0: writing(x, f); break; case 1: writing(V<F>{ x, y }, b); break; case 2: writing(V<F>{ one, x, one }, f); break; case 3: writing(std::set<F>{ x }, f); break; case 4: writing(A<F, 3>{ one, x, y }, b); break; case 5: writing(P<F, bool>{ x, true }, f); break; case 6: writing(P<S, F>{ "s", x }, f); break; case 7: writing(T<F, S, F>{ x, "m", y }, b); break; case 8: writing(M<F>{ { "a", x }, { "b", y } }, b); break; case 9: writing(UM<F>{ { "a", x } }, f); break; case 10: writing(std::make_unique<F>(x), f); break; case 11: writing(V<SP<F>>{ std::make_shared<F>(x), std::make_shared<F>(y) }, b); break; case 12: { Mem<F> m; m.a = x; writing(V<Mem<F>>{ m, m }, f); break; } case 13: { Mem3<F> m; m.a = x; m.b = y; writing(m, b); break; } case 14: { Mem3<F> m; m.a = x; writing(M<Mem3<F>>{ { "k", m } }, f); break; } case 15: { Der<F> m; m.a = x; m.d = y; writing(m, b); break; } case 16: { Der<F> m; m.a = x; writing(T<bool, Der<F>>{ true, m }, f); break; } case 17: writing(V<V<F>>{ { one }, {}, { one, x } }, f); break; case 18: writing(V<std::variant<S, F>>{ S("x"), x, y }, b); break; case 19: writing(std::variant<F, bool>(x), f); break; case 20: writing(literal_dict<F>{ { "a", x }, { "b", one } }, f); break; case 21: writing((const F*)&x, f); break; case 22: writing(M<V<P<bool, F>>>{ { "k", { { true, one }, { false, x } } } }, f); break; case 23: writing(P<P<F, F>, T<F>>{ { one, x }, T<F>{ y } }, b); break; } }
HARNESS(h_float) { floats<float>(); } HARNESS(h_double) { floats<double>(); }
// one of many
HARNESS(h_among) { double x = sym_val<double>("x"); unsigned n = 1 + sym_choice(20, "n"), k = sym_choice(n, "k"); V<double> v; for (unsigned i = 0; i < n; i++) v.push_back(i == k ? x : i * 0.25); writing(v, isFinite(x)); }
HARNESS(h_among_obj) { double x = sym_val<double>("x"); unsigned n = 1 + sym_choice(8, "n"), k = sym_choice(n, "k"); V<Mem3<double>> v(n); for (unsigned i = 0; i < n; i++) v[i].y = saltStr(i); if (sym_choice(2, "optional")) v[k].b = x; else v[k].a = x; writing(M<V<Mem3<double>>>{ { "a", v }, { "b", {} } }, isFinite(x)); }
// sizes up to 300, strings and keys of up to 5000 bytes
#define X(n, l, ...) HARNESS_SW(h_sweep_##n) { large<__VA_ARGS__>(sweepTree<__VA_ARGS__>(l)); }
SWEEPC(X) SWEEPO(X)
#undef X
#define X(n, k, ...) HARNESS_SW(h_len_##n) { large<__VA_ARGS__>(lenTree<__VA_ARGS__>(k)); }
LENC(X) LENO(X)
#undef X
