// C03: text survives every write path / read path pair; the emitted JSON string is well formed.
#include "common.hpp"
#include "sweep.hpp"
#ifndef NS
#define NS 2
#endif
template <class W> struct Wrap { W v{}; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(v); } };
static std::string str() { unsigned n = sym_choice(NS + 1, "len"); return sym_string(n, "s"); }
// independent scan of a JSON string token at p: returns the position after the closing quote, 0 when malformed
static size_t token(const std::string& t, size_t p) {
  if (p >= t.size() || t[p] != '"') return 0; p++;
  while (p < t.size()) { unsigned char c = t[p]; if (c == '"') return p + 1; if (c < 0x20) return 0; if (c == '\\') { p++; if (p >= t.size()) return 0; unsigned char e = t[p]; if (e == 'u') { for (int i = 1; i <= 4; i++) { if (p + i >= t.size()) return 0; unsigned char h = t[p + i]; bool hex = (h >= '0' && h <= '9') || (h >= 'a' && h <= 'f') || (h >= 'A' && h <= 'F'); if (!hex) return 0; } p += 4; } else if (!(e == '"' || e == '\\' || e == '/' || e == 'b' || e == 'f' || e == 'n' || e == 'r' || e == 't')) return 0; } p++; }
  return 0; }
template <class C, class F> static void reads(const std::string& t, F check) {
  { C w{}; sym_assert(parse(t, w), "the text is accepted by the parser"); sym_assert(check(w), "the parser returns the same text"); }
  { C w{}; sym_assert(deserialize(t, w), "the text is accepted by the deserializer"); sym_assert(check(w), "the deserializer returns the same text"); }
  { C w{}; sym_assert(deserialize(std::string(t), w), "the text is accepted by the in-situ deserializer"); sym_assert(check(w), "the in-situ deserializer returns the same text"); } }
template <class C, class F> static void trip(const C& c, F check, const char* ctx) {
  std::string t; sym_assert(write_to_string(c, t), "the text is written"); reads<C>(t, check);
  Document d; sym_assert(serialize_to_document(c, d), "the text is stored in a document"); { C w{}; sym_assert(deserialize(d, w), "the document is accepted"); sym_assert(check(w), "the document returns the same text"); }
  std::string u = document_to_string(d); sym_assert(u == t, "both write paths emit the same text"); obs("t", t); sym_reach(ctx); }
HARNESS(h_plain) { std::string s = str(); trip(s, [&](const std::string& w) { return eq(w, s); }, "plain"); std::string t; write_to_string(s, t); sym_assert(token(t, 0) == t.size(), "exactly one well formed JSON string is emitted"); }
HARNESS(h_view) { std::string s = str(); std::string_view v(s); std::string t; sym_assert(write_to_string(v, t), "view written"); sym_assert(token(t, 0) == t.size(), "exactly one well formed JSON string is emitted for a view"); reads<std::string>(t, [&](const std::string& w) { return eq(w, s); });
  Document d; sym_assert(serialize_to_document(v, d), "view stored"); std::string w; sym_assert(deserialize(d, w) && eq(w, s), "the document returns the text of the view"); sym_reach("view"); }
HARNESS(h_vector) { std::string a = str(), b = str(); std::vector<std::string> c{ a, b }; trip(c, [&](const std::vector<std::string>& w) { return w.size() == 2 && eq(w[0], a) && eq(w[1], b); }, "vector"); }
HARNESS(h_set) { std::string a = str(); std::set<std::string> c{ a, "m" }; trip(c, [&](const std::set<std::string>& w) { return eq(w, c); }, "set"); }
HARNESS(h_key) { std::string k = str(); std::map<std::string, bool> m; m[k] = true; trip(m, [&](const std::map<std::string, bool>& w) { return w.size() == 1 && eq(w.begin()->first, k) && w.begin()->second; }, "key"); std::string t; write_to_string(m, t); size_t e = token(t, 1); sym_assert(e && t.substr(e) == ":true}", "the key is emitted as one well formed JSON string"); }
HARNESS(h_keys2) { std::string k = sym_string(1, "k1"), l = sym_string(sym_choice(2, "n2"), "k2"); sym_assume(!(l.size() == 1 && k[0] == l[0])); std::map<std::string, std::string> m; m[k] = "1"; m[l] = "2"; trip(m, [&](const std::map<std::string, std::string>& w) { return eq(w, m); }, "keys2"); }
HARNESS(h_ukey) { std::string k = str(); std::unordered_map<std::string, std::string> m; m[k] = k; trip(m, [&](const std::unordered_map<std::string, std::string>& w) { return eq(w, m); }, "ukey"); }
HARNESS(h_member) { Wrap<std::string> c; c.v = str(); trip(c, [&](const Wrap<std::string>& w) { return eq(w.v, c.v); }, "member"); }
HARNESS(h_optional) { Wrap<std::optional<std::string>> c; c.v = str(); trip(c, [&](const Wrap<std::optional<std::string>>& w) { return w.v && eq(*w.v, *c.v); }, "optional"); }
HARNESS(h_tuple) { std::tuple<std::string, bool, std::string> c{ str(), true, sym_string(1, "s2") }; trip(c, [&](const std::tuple<std::string, bool, std::string>& w) { return eq(w, c); }, "tuple"); }
HARNESS(h_array) { std::array<std::string, 2> c{ str(), sym_string(1, "s2") }; trip(c, [&](const std::array<std::string, 2>& w) { return eq(w, c); }, "array"); }
// long text: any one byte at any position of a longer string
HARNESS(h_long) { std::string s(LONGN, 'a'); unsigned p = sym_choice(LONGN, "pos"); sym_bytes(&s[p], 1, "c"); trip(s, [&](const std::string& w) { return eq(w, s); }, "long"); }
// reading escapes: every \uXXXX escape denotes its UTF-8 encoding, surrogates included
HARNESS(h_escape) { char h[5]; sym_bytes(h, 4, "hex"); h[4] = 0; std::string t = "\"\\u" + std::string(h, 4) + "\""; bool hex = true; unsigned v = 0;
  for (int i = 0; i < 4; i++) { unsigned char c = h[i]; unsigned d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; if (d == 99) { hex = false; break; } v = v * 16 + d; }
  std::string p, q; bool a = parse(t, p), b = deserialize(t, q);
  if (hex && v >= 0xD800 && v <= 0xDFFF) return; // lone surrogates: up to the JSON library
  if (!hex) { sym_assert(!a && !b, "an invalid escape is rejected"); sym_reach("bad"); return; }
  std::string r; if (v < 0x80) r += (char)v; else if (v < 0x800) { r += (char)(0xC0 | v >> 6); r += (char)(0x80 | (v & 63)); } else { r += (char)(0xE0 | v >> 12); r += (char)(0x80 | (v >> 6 & 63)); r += (char)(0x80 | (v & 63)); }
  sym_assert(a && eq(p, r), "the parser decodes the escape"); sym_assert(b && eq(q, r), "the deserializer decodes the escape"); sym_reach("good"); }
// lengths up to 5000
HARNESS(h_len) { std::string s = sweepStr(sweepLen()); switch (sym_choice(6, "where")) { case 0: trip(s, [&](const std::string& w) { return eq(w, s); }, "len"); break; case 1: { std::vector<std::string> c{ "a", s, s }; trip(c, [&](const std::vector<std::string>& w) { return eq(w, c); }, "len"); break; } case 2: { std::map<std::string, std::string> c; c[s] = s; c["k"] = ""; trip(c, [&](const std::map<std::string, std::string>& w) { return eq(w, c); }, "len"); break; } case 3: { std::unordered_map<std::string, bool> c; c[s] = true; trip(c, [&](const std::unordered_map<std::string, bool>& w) { return eq(w, c); }, "len"); break; } case 4: { Wrap<std::optional<std::string>> c; c.v = s; trip(c, [&](const Wrap<std::optional<std::string>>& w) { return eq(w.v, c.v); }, "len"); break; } case 5: { std::set<std::string> c{ s, "m" }; trip(c, [&](const std::set<std::string>& w) { return eq(w, c); }, "len"); break; } } }
// a string read into one that has text already
HARNESS(h_prior) { std::string s = sweepStr(sweepLen(300)), w(sym_choice(2, "prior") ? 40 : 3, 'p'), x = w; std::string t; sym_assert(write_to_string(s, t), "written"); std::string u = w; sym_assert(write_to_string(s, u) && u == t, "the text replaces what the string held"); sym_assert(deserialize(t, w) && eq(w, s), "the deserializer replaces the text"); sym_assert(parse(t, x) && eq(x, s), "the parser replaces the text"); sym_reach("prior"); }
