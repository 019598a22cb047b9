// Shared harness vocabulary: symbolic values of the supported types, comparison, number texts.
#pragma once
#include <persistence/persistence.hpp>
#include <persistence/utility.hpp>
#include <array>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <variant>
#include <vector>
#include <cmath>
#include <cstring>
#include "sym.h"
using namespace persistence;
using rapidjson::Document;
#ifndef MAXSTR
#define MAXSTR 2
#endif
#ifndef MAXLEN
#define MAXLEN 2
#endif
enum class PlainEnum : short { A = 1, B = 2 };
enum class UEnum : unsigned char { A, B };
enum class LEnum : long long { A };
// ---- symbolic values -------------------------------------------------------------------------------------------
template <class T, class = void> struct Gen;
template <class T> struct Gen<T, std::enable_if_t<std::is_arithmetic_v<T> && !std::is_same_v<T, bool>>> { static T make() { return sym_val<T>("num"); } };
template <> struct Gen<bool> { static bool make() { return sym_bool("bool"); } };
template <> struct Gen<std::nullptr_t> { static std::nullptr_t make() { return nullptr; } };
template <class T> struct Gen<T, std::enable_if_t<std::is_enum_v<T>>> { static T make() { return (T)sym_val<std::underlying_type_t<T>>("enum"); } };
template <> struct Gen<std::string> { static std::string make() { unsigned n = sym_choice(MAXSTR + 1, "strlen"); char b[MAXSTR + 1]; sym_bytes(b, n, "str"); return std::string(b, n); } };
template <> struct Gen<byte_vector> { static byte_vector make() { unsigned n = sym_choice(MAXLEN + 1, "byteslen"); byte_vector v(n); if (n) sym_bytes(v.data(), n, "bytes"); return v; } };
template <class T> struct Gen<std::vector<T>, std::enable_if_t<!std::is_same_v<T, std::byte>>> { static std::vector<T> make() { unsigned n = sym_choice(MAXLEN + 1, "veclen"); std::vector<T> v; for (unsigned i = 0; i < n; i++) v.push_back(Gen<T>::make()); return v; } };
template <class T> struct Gen<std::set<T>> { static std::set<T> make() { unsigned n = sym_choice(MAXLEN + 1, "setlen"); std::set<T> v; for (unsigned i = 0; i < n; i++) v.insert(Gen<T>::make()); return v; } };
#ifdef KEYCHOICE
inline std::string symKey() { static const char* const K[] = { "a", "", "b/~" }; return K[sym_choice(3, "key")]; }
#else
inline std::string symKey() { return Gen<std::string>::make(); }
#endif
template <class T> struct Gen<std::map<std::string, T>> { static std::map<std::string, T> make() { unsigned n = sym_choice(MAXLEN + 1, "maplen"); std::map<std::string, T> v; for (unsigned i = 0; i < n; i++) { auto k = symKey(); v[k] = Gen<T>::make(); } return v; } };
template <class T> struct Gen<std::unordered_map<std::string, T>> { static std::unordered_map<std::string, T> make() { unsigned n = sym_choice(MAXLEN + 1, "umaplen"); std::unordered_map<std::string, T> v; for (unsigned i = 0; i < n; i++) { auto k = symKey(); v[k] = Gen<T>::make(); } return v; } };
template <class T, size_t N> struct Gen<std::array<T, N>> { static std::array<T, N> make() { std::array<T, N> a; for (auto& x : a) x = Gen<T>::make(); return a; } };
template <class A, class B> struct Gen<std::pair<A, B>> { static std::pair<A, B> make() { A a = Gen<A>::make(); B b = Gen<B>::make(); return { std::move(a), std::move(b) }; } };
template <class... Ts> struct Gen<std::tuple<Ts...>> { static std::tuple<Ts...> make() { return std::tuple<Ts...>{ Gen<Ts>::make()... }; } };
template <class T> struct Gen<std::optional<T>> { static std::optional<T> make() { if (sym_choice(2, "has")) return Gen<T>::make(); return std::nullopt; } };
template <class T> struct Gen<std::unique_ptr<T>> { static std::unique_ptr<T> make() { return std::make_unique<T>(Gen<T>::make()); } };
template <class T> struct Gen<std::shared_ptr<T>> { static std::shared_ptr<T> make() { return std::make_shared<T>(Gen<T>::make()); } };
template <class T> struct Gen<T, std::void_t<decltype(T::gen())>> { static T make() { return T::gen(); } };
// ---- equality (bitwise for floating point, by value through pointers) --------------------------------------------
template <class T> bool eq(const T& a, const T& b);
template <class T, class = void> struct Eq { static bool f(const T& a, const T& b) { return a == b; } };
template <> struct Eq<double> { static bool f(double a, double b) { return std::memcmp(&a, &b, 8) == 0; } };
template <> struct Eq<float> { static bool f(float a, float b) { return std::memcmp(&a, &b, 4) == 0; } };
template <> struct Eq<std::string> { static bool f(const std::string& a, const std::string& b) { return a.size() == b.size() && std::memcmp(a.data(), b.data(), a.size()) == 0; } };
template <class C> bool eqSeq(const C& a, const C& b) { if (a.size() != b.size()) return false; auto i = a.begin(); auto j = b.begin(); bool r = true; for (; i != a.end(); ++i, ++j) r &= eq<typename C::value_type>(*i, *j); return r; }
template <class T> struct Eq<std::vector<T>> { static bool f(const std::vector<T>& a, const std::vector<T>& b) { return eqSeq(a, b); } };
// vector<bool> hands out proxies
template <> struct Eq<std::vector<bool>> { static bool f(const std::vector<bool>& a, const std::vector<bool>& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r &= (a[i] == b[i]); return r; } };
template <class T> struct Eq<std::set<T>> { static bool f(const std::set<T>& a, const std::set<T>& b) { return eqSeq(a, b); } };
template <class T, size_t N> struct Eq<std::array<T, N>> { static bool f(const std::array<T, N>& a, const std::array<T, N>& b) { return eqSeq(a, b); } };
template <class A, class B> struct Eq<std::pair<A, B>> { static bool f(const std::pair<A, B>& a, const std::pair<A, B>& b) { return eq<std::remove_const_t<A>>(a.first, b.first) & eq<B>(a.second, b.second); } };
template <class... Ts> struct Eq<std::tuple<Ts...>> { static bool f(const std::tuple<Ts...>& a, const std::tuple<Ts...>& b) { return g(a, b, std::index_sequence_for<Ts...>()); } template <size_t... I> static bool g(const std::tuple<Ts...>& a, const std::tuple<Ts...>& b, std::index_sequence<I...>) { return (true & ... & eq<Ts>(std::get<I>(a), std::get<I>(b))); } };
template <class K, class T> struct Eq<std::map<K, T>> { static bool f(const std::map<K, T>& a, const std::map<K, T>& b) { return eqSeq(a, b); } };
template <class K, class T> struct Eq<std::unordered_map<K, T>> { static bool f(const std::unordered_map<K, T>& a, const std::unordered_map<K, T>& b) { if (a.size() != b.size()) return false; bool r = true; for (auto& [k, v] : a) { auto it = b.find(k); if (it == b.end()) return false; r &= eq<T>(v, it->second); } return r; } };
template <class T> struct Eq<std::optional<T>> { static bool f(const std::optional<T>& a, const std::optional<T>& b) { if (a.has_value() != b.has_value()) return false; return !a || eq<T>(*a, *b); } };
template <class T> struct Eq<std::unique_ptr<T>> { static bool f(const std::unique_ptr<T>& a, const std::unique_ptr<T>& b) { return !a == !b && (!a || eq<T>(*a, *b)); } };
template <class T> struct Eq<std::shared_ptr<T>> { static bool f(const std::shared_ptr<T>& a, const std::shared_ptr<T>& b) { return !a == !b && (!a || eq<T>(*a, *b)); } };
template <class T> bool eq(const T& a, const T& b) { return Eq<T>::f(a, b); }
// ---- JSON text of a number, through RapidJSON's own writer --------------------------------------------------------
enum NumKind { NK_INT, NK_UINT, NK_DOUBLE };
inline std::string num_text(int64_t v) { rapidjson::StringBuffer b; rapidjson::Writer<rapidjson::StringBuffer> w(b); w.Int64(v); return std::string(b.GetString(), b.GetSize()); }
inline std::string num_text_u(uint64_t v) { rapidjson::StringBuffer b; rapidjson::Writer<rapidjson::StringBuffer> w(b); w.Uint64(v); return std::string(b.GetString(), b.GetSize()); }
inline std::string num_text_d(double v) { rapidjson::StringBuffer b; rapidjson::Writer<rapidjson::StringBuffer> w(b); w.Double(v); return std::string(b.GetString(), b.GetSize()); }
inline std::string sym_string(unsigned n, const char* name) { std::string s(n, '\0'); if (n) sym_bytes(&s[0], n, name); return s; }
inline void obs(const char* l, const std::string& s) { uint64_t h = s.size(); for (unsigned char c : s) h = h * 31 + c; sym_print(l, h); }
// ---- the four read paths ------------------------------------------------------------------------------------------
template <class T> struct Read { bool ok; T value; };
// with SWEEP defined only the size and length sweeps are compiled
#ifdef SWEEP
#define HARNESS(n) template <class = void> static void n()
#define HARNESS_SW(n) extern "C" void n()
#else
#define HARNESS(n) extern "C" void n()
#define HARNESS_SW(n) template <class = void> static void n()
#endif
