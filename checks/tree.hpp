// Symbolic JSON trees, their text, and a reference reader (what a document means for a C++ type), independent of the library.
#pragma once
#include "common.hpp"
#ifndef TREELEN
#define TREELEN 2
#endif
struct JV { enum K { Null, Bool, Int, Dbl, Str, Arr, Obj } k = Null; bool b = false; int64_t i = 0; double d = 0; std::string s; std::vector<JV> a; std::vector<std::string> keys; };
inline std::string quoted(const std::string& s) { rapidjson::StringBuffer b; rapidjson::Writer<rapidjson::StringBuffer> w(b); w.String(s.data(), (rapidjson::SizeType)s.size()); return std::string(b.GetString(), b.GetSize()); }
inline void text(const JV& v, std::string& o) {
  switch (v.k) { case JV::Null: o += "null"; break; case JV::Bool: o += v.b ? "true" : "false"; break; case JV::Int: o += num_text(v.i); break; case JV::Dbl: o += num_text_d(v.d); break; case JV::Str: o += quoted(v.s); break;
    case JV::Arr: o += '['; for (size_t i = 0; i < v.a.size(); i++) { if (i) o += ','; text(v.a[i], o); } o += ']'; break;
    case JV::Obj: o += '{'; for (size_t i = 0; i < v.a.size(); i++) { if (i) o += ','; o += quoted(v.keys[i]); o += ':'; text(v.a[i], o); } o += '}'; break; } }
inline std::string text(const JV& v) { std::string o; text(v, o); return o; }
inline void put(const JV& v, rapidjson::Value& o, rapidjson::MemoryPoolAllocator<>& al) {
  switch (v.k) { case JV::Null: o.SetNull(); break; case JV::Bool: o.SetBool(v.b); break; case JV::Int: o.SetInt64(v.i); break; case JV::Dbl: o.SetDouble(v.d); break; case JV::Str: o.SetString(v.s.data(), (rapidjson::SizeType)v.s.size(), al); break;
    case JV::Arr: o.SetArray(); for (auto& x : v.a) { rapidjson::Value y; put(x, y, al); o.PushBack(y, al); } break;
    case JV::Obj: o.SetObject(); for (size_t i = 0; i < v.a.size(); i++) { rapidjson::Value k(v.keys[i].data(), (rapidjson::SizeType)v.keys[i].size(), al), y; put(v.a[i], y, al); o.AddMember(k, y, al); } break; } }
// scalars carry symbolic content
inline char sym_letter() { char c; sym_bytes(&c, 1, "char"); sym_assume((c >= 'a') & (c <= 'z')); return c; }
inline JV leaf(unsigned k) { JV v; v.k = (JV::K)k; if (k == JV::Bool) v.b = sym_bool("bool"); else if (k == JV::Int) v.i = sym_val<int64_t>("int"); else if (k == JV::Dbl) v.d = 1.5; else if (k == JV::Str) v.s = std::string(1, sym_letter()); return v; }
static const char* const KEYS[] = { "a", "b", "c", "d" };
// every tree of the given depth with up to TREELEN children per node; distinct keys
inline JV tree(unsigned depth, unsigned len = TREELEN) { unsigned k = sym_choice(depth ? 7 : 5, "kind"); if (k < 5) return leaf(k); JV v; v.k = (JV::K)k; unsigned n = sym_choice(len + 1, "n"); for (unsigned i = 0; i < n; i++) { if (k == JV::Obj) v.keys.push_back(KEYS[i]); v.a.push_back(tree(depth - 1, len)); } return v; }
// ---- trees shaped like T with a bounded number of deviations ----------------------------------------------------------
struct Dev { unsigned left; };
inline JV odd() { unsigned k = sym_choice(9, "odd"); if (k < 5) return leaf(k); JV v; if (k == 5) v.k = JV::Arr; else if (k == 6) v.k = JV::Obj; else if (k == 7) { v.k = JV::Arr; v.a.push_back(leaf(JV::Int)); } else { v.k = JV::Obj; v.keys.push_back("a"); v.a.push_back(leaf(JV::Int)); } return v; }
template <class T, class = void> struct Shape;
template <class T> JV shape(Dev& d) { if (d.left && sym_choice(2, "deviate")) { d.left--; return odd(); } return Shape<T>::make(d); }
template <> struct Shape<bool> { static JV make(Dev&) { return leaf(JV::Bool); } };
template <> struct Shape<std::nullptr_t> { static JV make(Dev&) { return leaf(JV::Null); } };
template <> struct Shape<std::string> { static JV make(Dev&) { return leaf(JV::Str); } };
template <class T> struct Shape<T, std::enable_if_t<(std::is_integral_v<T> && !std::is_same_v<T, bool>)>> { static JV make(Dev&) { return leaf(JV::Int); } };
template <class T> struct Shape<T, std::enable_if_t<std::is_floating_point_v<T>>> { static JV make(Dev&) { return leaf(JV::Dbl); } };
template <class T> JV shapeArr(Dev& d, unsigned n) { JV v; v.k = JV::Arr; for (unsigned i = 0; i < n; i++) v.a.push_back(shape<T>(d)); return v; }
template <class T> struct Shape<std::vector<T>> { static JV make(Dev& d) { return shapeArr<T>(d, sym_choice(TREELEN + 1, "n")); } };
template <class T> struct Shape<std::set<T>> { static JV make(Dev& d) { return shapeArr<T>(d, sym_choice(TREELEN + 1, "n")); } };
// fixed length: one too few or one too many is a deviation
inline void skew(JV& v, Dev& d) { if (d.left) { unsigned k = sym_choice(3, "skew"); if (k == 1 && !v.a.empty()) { v.a.pop_back(); d.left--; } else if (k == 2) { v.a.push_back(v.a.empty() ? leaf(JV::Null) : v.a.back()); d.left--; } } }
template <class T, size_t N> struct Shape<std::array<T, N>> { static JV make(Dev& d) { JV v = shapeArr<T>(d, N); skew(v, d); return v; } };
template <class A, class B> struct Shape<std::pair<A, B>> { static JV make(Dev& d) { JV v; v.k = JV::Arr; v.a.push_back(shape<A>(d)); v.a.push_back(shape<B>(d)); skew(v, d); return v; } };
template <class... Ts> struct Shape<std::tuple<Ts...>> { static JV make(Dev& d) { JV v; v.k = JV::Arr; (v.a.push_back(shape<Ts>(d)), ...); skew(v, d); return v; } };
template <class T> JV shapeMap(Dev& d) { JV v; v.k = JV::Obj; unsigned n = sym_choice(TREELEN + 1, "n"); for (unsigned i = 0; i < n; i++) { v.keys.push_back(KEYS[i]); v.a.push_back(shape<T>(d)); } return v; }
template <class T> struct Shape<std::map<std::string, T>> { static JV make(Dev& d) { return shapeMap<T>(d); } };
template <class T> struct Shape<std::unordered_map<std::string, T>> { static JV make(Dev& d) { return shapeMap<T>(d); } };
template <class T> struct Shape<std::optional<T>> { static JV make(Dev& d) { return Shape<T>::make(d); } };
template <class T> struct Shape<std::unique_ptr<T>> { static JV make(Dev& d) { return Shape<T>::make(d); } };
template <class T> struct Shape<std::shared_ptr<T>> { static JV make(Dev& d) { return Shape<T>::make(d); } };
template <class T> struct Shape<T, std::void_t<decltype(T::shape(std::declval<Dev&>()))>> { static JV make(Dev& d) { return T::shape(d); } };
// ---- reference reader ---------------------------------------------------------------------------------------------------
template <class T, class = void> struct Ref;
template <class T> bool ref(const JV& v, T& o) { return Ref<T>::read(v, o); }
template <> struct Ref<bool> { static bool read(const JV& v, bool& o) { if (v.k != JV::Bool) return false; o = v.b; return true; } };
template <> struct Ref<std::nullptr_t> { static bool read(const JV& v, std::nullptr_t&) { return v.k == JV::Null; } };
template <> struct Ref<std::string> { static bool read(const JV& v, std::string& o) { if (v.k != JV::Str) return false; o = v.s; return true; } };
template <class T> struct Ref<T, std::enable_if_t<(std::is_integral_v<T> && !std::is_same_v<T, bool>)>> { static bool read(const JV& v, T& o) { if (v.k != JV::Int) return false; o = (T)v.i; return std::is_unsigned_v<T> ? v.i >= 0 && (uint64_t)v.i <= (uint64_t)std::numeric_limits<T>::max() : (int64_t)(T)v.i == v.i; } };
template <class T> struct Ref<T, std::enable_if_t<std::is_floating_point_v<T>>> { static bool read(const JV& v, T& o) { if (v.k == JV::Int) { o = (T)v.i; return true; } if (v.k != JV::Dbl) return false; o = (T)v.d; return true; } };
template <class C, class T> bool refSeq(const JV& v, C& o) { if (v.k != JV::Arr) return false; o.clear(); for (auto& x : v.a) { T t{}; if (!ref<T>(x, t)) return false; o.insert(o.end(), std::move(t)); } return true; }
template <class T> struct Ref<std::vector<T>> { static bool read(const JV& v, std::vector<T>& o) { return refSeq<std::vector<T>, T>(v, o); } };
template <class T> struct Ref<std::set<T>> { static bool read(const JV& v, std::set<T>& o) { return refSeq<std::set<T>, T>(v, o); } };
template <class T, size_t N> struct Ref<std::array<T, N>> { static bool read(const JV& v, std::array<T, N>& o) { if (v.k != JV::Arr || v.a.size() != N) return false; for (size_t i = 0; i < N; i++) if (!ref<T>(v.a[i], o[i])) return false; return true; } };
template <class A, class B> struct Ref<std::pair<A, B>> { static bool read(const JV& v, std::pair<A, B>& o) { return v.k == JV::Arr && v.a.size() == 2 && ref<A>(v.a[0], o.first) && ref<B>(v.a[1], o.second); } };
template <class... Ts> struct Ref<std::tuple<Ts...>> { static bool read(const JV& v, std::tuple<Ts...>& o) { return v.k == JV::Arr && v.a.size() == sizeof...(Ts) && each(v, o, std::index_sequence_for<Ts...>()); } template <size_t... I> static bool each(const JV& v, std::tuple<Ts...>& o, std::index_sequence<I...>) { return (true && ... && ref<Ts>(v.a[I], std::get<I>(o))); } };
template <class C, class T> bool refMap(const JV& v, C& o) { if (v.k != JV::Obj) return false; o.clear(); for (size_t i = 0; i < v.a.size(); i++) { T t{}; if (!ref<T>(v.a[i], t)) return false; o[v.keys[i]] = std::move(t); } return true; }
template <class T> struct Ref<std::map<std::string, T>> { static bool read(const JV& v, std::map<std::string, T>& o) { return refMap<std::map<std::string, T>, T>(v, o); } };
template <class T> struct Ref<std::unordered_map<std::string, T>> { static bool read(const JV& v, std::unordered_map<std::string, T>& o) { return refMap<std::unordered_map<std::string, T>, T>(v, o); } };
template <class T> struct Ref<std::unique_ptr<T>> { static bool read(const JV& v, std::unique_ptr<T>& o) { o = std::make_unique<T>(); return ref<T>(v, *o); } };
template <class T> struct Ref<std::shared_ptr<T>> { static bool read(const JV& v, std::shared_ptr<T>& o) { o = std::make_shared<T>(); return ref<T>(v, *o); } };
template <class T> struct Ref<T, std::void_t<decltype(std::declval<T&>().ref(std::declval<const JV&>()))>> { static bool read(const JV& v, T& o) { return o.ref(v); } };
inline const JV* find(const JV& v, const char* k) { for (size_t i = 0; i < v.keys.size(); i++) if (v.keys[i] == k) return &v.a[i]; return nullptr; }
inline void dtree(const JV& v, Document& d) { put(v, d, d.GetAllocator()); }
