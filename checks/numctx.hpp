// A symbolic JSON number (64-bit integer, unsigned or double) read into a type in many contexts.
#pragma once
#include "common.hpp"
template <class W> struct Wrap { W v{}; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(v); } };
template <class W> struct Wrap2 { W v{}; bool b = false; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(v) & MEMBER_VARIABLE(b); } };
template <class W> struct Wrap3 { bool a = false; W v{}; bool b = false; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(v) & MEMBER_VARIABLE(b); } };
struct Num { unsigned kind; int64_t i; uint64_t u; double d; std::string text; };
static Num number() { Num n{}; n.kind = sym_choice(3, "kind");
  if (n.kind == 0) { n.i = sym_val<int64_t>("i"); n.text = num_text(n.i); } else if (n.kind == 1) { n.u = sym_val<uint64_t>("u"); n.text = num_text_u(n.u); } else { n.d = sym_val<double>("d"); sym_assume(n.d - n.d == 0); n.text = num_text_d(n.d); } return n; }
static void put(rapidjson::Value& v, const Num& n) { if (n.kind == 0) v.SetInt64(n.i); else if (n.kind == 1) v.SetUint64(n.u); else v.SetDouble(n.d); }
template <class T, bool E = std::is_enum_v<T>> struct Under { using type = T; };
template <class T> struct Under<T, true> { using type = std::underlying_type_t<T>; };
// is the number representable in T (and which value)?
template <class T> static bool repr(const Num& n, T& out) { using U = typename Under<T>::type; using L = std::numeric_limits<U>;
  if (n.kind == 2) return false; __int128 v = n.kind == 0 ? (__int128)n.i : (__int128)n.u; out = (T)(U)v; return (v >= (__int128)L::min()) & (v <= (__int128)L::max()); }
template <class C, class T, class F> static void run(const Num& n, bool want, T v, const char* pre, const char* post, F get, const char* ctx) {
  std::string s = pre + n.text + post;
  { C w{}; bool ok = parse(s, w); sym_assert(ok == want, "the parser accepts a number exactly when the target type represents it"); if (ok) sym_assert(get(w) == v, "the parser stores the exact value"); sym_print("p", ok); }
  { C w{}; bool ok = deserialize(s, w); sym_assert(ok == want, "the deserializer accepts a number exactly when the target type represents it"); if (ok) sym_assert(get(w) == v, "the deserializer stores the exact value"); sym_print("d", ok); }
  sym_reach(ctx); }
template <class T> static void ints() {
  Num n = number(); T v{}; bool want = repr<T>(n, v);
  switch (sym_choice(11, "context")) {
    case 0: run<T>(n, want, v, "", "", [](T& w) { return w; }, "plain"); { rapidjson::Document d; put(d, n); T w{}; bool ok = deserialize(d, w); sym_assert(ok == want, "a document number is accepted exactly when the target type represents it"); if (ok) sym_assert(w == v, "the exact document value is stored"); } break;
    case 1: run<std::vector<T>>(n, want, v, "[1,", "]", [](std::vector<T>& w) { return w.at(1); }, "vector"); break;
    case 2: run<std::set<T>>(n, want, v, "[", "]", [](std::set<T>& w) { return *w.begin(); }, "set"); break;
    case 3: run<std::array<T, 2>>(n, want, v, "[", ",1]", [](std::array<T, 2>& w) { return w[0]; }, "array"); break;
    case 4: run<std::pair<bool, T>>(n, want, v, "[true,", "]", [](std::pair<bool, T>& w) { return w.second; }, "pair"); break;
    case 5: run<std::map<std::string, T>>(n, want, v, "{\"k\":", "}", [](std::map<std::string, T>& w) { return w["k"]; }, "map"); break;
    case 6: run<Wrap<T>>(n, want, v, "{\"v\":", "}", [](Wrap<T>& w) { return w.v; }, "member"); break;
    case 7: run<Wrap<std::optional<T>>>(n, want, v, "{\"v\":", "}", [](Wrap<std::optional<T>>& w) { return w.v.value(); }, "optional"); break;
    case 8: run<Wrap2<T>>(n, want, v, "{\"v\":", ",\"b\":true}", [](Wrap2<T>& w) { return w.v; }, "member of 2"); break;
    case 9: run<Wrap3<T>>(n, want, v, "{\"a\":true,\"v\":", ",\"b\":true}", [](Wrap3<T>& w) { return w.v; }, "member of 3"); break;
    case 10: run<std::tuple<T, T, std::string>>(n, want, v, "[1,", ",\"\"]", [](std::tuple<T, T, std::string>& w) { return std::get<1>(w); }, "tuple"); break;
  } }
