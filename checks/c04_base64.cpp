// C04: Base64 encode / decode against an independent bit-level reference, memory safe for every length.
#include "common.hpp"
#include <persistence/base64.hpp>
#include <persistence/bytes.hpp>
static unsigned char refc(unsigned v) { unsigned char c = '/'; if (v < 62) c = (unsigned char)(v - 52 + '0'); if (v == 62) c = '+'; if (v < 52) c = (unsigned char)(v - 26 + 'a'); if (v < 26) c = (unsigned char)(v + 'A'); return c; }
static unsigned refv(unsigned char c) { unsigned v = 255; if (c >= 'A' && c <= 'Z') v = c - 'A'; if (c >= 'a' && c <= 'z') v = c - 'a' + 26; if (c >= '0' && c <= '9') v = c - '0' + 52; if (c == '+') v = 62; if (c == '/') v = 63; return v; }
// expected character at position p for n input bytes
static unsigned char refat(const unsigned char* b, size_t n, size_t p) {
  size_t t = p / 4 * 3, k = p % 4; unsigned x = b[t], y = t + 1 < n ? b[t + 1] : 0, z = t + 2 < n ? b[t + 2] : 0;
  if (k == 0) return refc(x >> 2); if (k == 1) return refc((x & 3) << 4 | y >> 4);
  if (k == 2) return t + 1 < n ? refc((y & 15) << 2 | z >> 6) : '='; return t + 2 < n ? refc(z & 63) : '='; }
template <class S> static void checkEnc(const unsigned char* b, size_t n, const S& s) { sym_assert(s.size() == (n + 2) / 3 * 4, "encoded length"); for (size_t p = 0; p < s.size(); p++) sym_assert((unsigned char)s[p] == refat(b, n, p), "encoded character"); }
#ifndef LO
#define LO 0
#define HI 30
#endif
static byte_vector bytes(size_t n) { byte_vector v(n); if (n) sym_bytes(v.data(), n, "bytes"); return v; }
HARNESS(h_encode) { size_t n = LO + sym_choice(HI - LO + 1, "len"); byte_vector v = bytes(n); std::string s; sym_assert(base64_encode(v, s), "encoding succeeds"); checkEnc((unsigned char*)v.data(), n, s); sym_reach("encoded"); }
HARNESS(h_encode_text) { size_t n = LO + sym_choice(HI - LO + 1, "len"); std::vector<char> v(n); if (n) sym_bytes(v.data(), n, "bytes"); std::string s = "garbage"; sym_assert(base64_encode(std::string_view(v.data(), n), s), "encoding succeeds"); checkEnc((unsigned char*)v.data(), n, s); sym_reach("encoded"); }
// reference decoder over a buffer of n characters: 0 invalid, 1 valid, 2 valid but with non-zero padding bits
static int refdec(const unsigned char* c, size_t n, std::vector<unsigned char>& out) { if (n % 4) return 0; int r = 1;
  for (size_t q = 0; q < n / 4; q++) { bool last = q + 1 == n / 4; unsigned char x = c[q * 4], y = c[q * 4 + 1], z = c[q * 4 + 2], w = c[q * 4 + 3]; unsigned k = 3; if (last && z == '=') { if (w != '=') return 0; k = 1; } else if (last && w == '=') k = 2;
    unsigned a = refv(x), b = refv(y), d = k > 1 ? refv(z) : 0, e = k > 2 ? refv(w) : 0; if ((a | b | d | e) > 63) return 0;
    out.push_back((unsigned char)(a << 2 | b >> 4)); if (k > 1) out.push_back((unsigned char)(b << 4 | d >> 2)); if (k > 2) out.push_back((unsigned char)(d << 6 | e)); if (k == 1 && (b & 15)) r = 2; if (k == 2 && (d & 3)) r = 2; }
  return r; }
static void checkDec(const unsigned char* c, size_t n, bool ok, const byte_vector& v) { std::vector<unsigned char> o; int r = refdec(c, n, o);
  if (r == 0) { sym_assert(!ok, "invalid Base64 text is rejected"); sym_reach("invalid"); return; }
  if (r == 1) sym_assert(ok, "valid Base64 text is accepted");
  if (ok) { sym_assert(v.size() == o.size(), "decoded length"); for (size_t i = 0; i < o.size(); i++) sym_assert((unsigned char)v[i] == o[i], "decoded byte"); sym_reach("valid"); } }
HARNESS(h_decode) { size_t n = LO + sym_choice(HI - LO + 1, "len"); std::vector<char> c(n); if (n) sym_bytes(c.data(), n, "text"); byte_vector v = make_byte_vector(1, 2, 3); bool ok = base64_decode(std::string_view(c.data(), n), v); checkDec((unsigned char*)c.data(), n, ok, v); sym_print("ok", ok); }
HARNESS(h_roundtrip) { size_t n = LO + sym_choice(HI - LO + 1, "len"); byte_vector v = bytes(n), w; std::string s; sym_assert(base64_encode(v, s) && base64_decode(s, w), "encoded bytes decode"); sym_assert(w.size() == n, "decoded length equals the original length"); for (size_t i = 0; i < n && i < w.size(); i++) sym_assert(v[i] == w[i], "decoded bytes equal the original bytes"); sym_reach("roundtrip"); }
template <class W> struct Wrap { W v{}; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(v); } };
// through JSON: text and document
HARNESS(h_json) { size_t n = LO + sym_choice(HI - LO + 1, "len"); byte_vector v = bytes(n); std::string t; sym_assert(write_to_string(v, t), "bytes written"); sym_assert(t.size() >= 2 && t[0] == '"' && t[t.size() - 1] == '"', "bytes written as a JSON string");
  std::string inner; for (size_t i = 1; i + 1 < t.size(); i++) { inner += t[i]; } checkEnc((unsigned char*)v.data(), n, inner);
  { byte_vector w; sym_assert(parse(t, w) && eq(v, w), "the parser returns the bytes"); } { byte_vector w; sym_assert(deserialize(t, w) && eq(v, w), "the deserializer returns the bytes"); }
  Document d; sym_assert(serialize_to_document(v, d), "bytes stored in a document"); { byte_vector w; sym_assert(deserialize(d, w) && eq(v, w), "the document returns the bytes"); }
  sym_reach("json"); }
HARNESS(h_json_member) { size_t n = LO + sym_choice(HI - LO + 1, "len"); Wrap<std::vector<byte_vector>> c; c.v = { bytes(n), byte_vector(1) }; std::string t; sym_assert(write_to_string(c, t), "bytes written"); Wrap<std::vector<byte_vector>> p, q; sym_assert(parse(t, p) && eq(c.v, p.v), "the parser returns the bytes"); sym_assert(deserialize(t, q) && eq(c.v, q.v), "the deserializer returns the bytes"); sym_reach("json"); }
// arbitrary string content offered where bytes are expected
HARNESS(h_json_decode) { size_t n = LO + sym_choice(HI - LO + 1, "len"); std::string c(n, 0); if (n) sym_bytes(&c[0], n, "text"); for (size_t i = 0; i < n; i++) sym_assume((unsigned char)c[i] >= 0x20 && c[i] != '"' && c[i] != '\\'); std::string t = "\"" + c + "\""; byte_vector v, w; bool a = parse(t, v), b = deserialize(t, w); checkDec((unsigned char*)c.data(), n, a, v); checkDec((unsigned char*)c.data(), n, b, w); }
// long sequences: three arbitrary bytes at the beginning, in the middle or at the end
static const unsigned LONGB[] = { 101, 126, 127, 128, 129, 130, 190, 191, 192, 193, 254, 255, 256, 257, 258, 382, 383, 384, 385, 510, 511, 512, 513, 765, 766, 767, 768, 769, 1000, 1022, 1023, 1024, 1025, 1026, 1535, 1536, 1537, 2047, 2048, 2049, 3071, 3072, 3073, 4095, 4096, 4097, 6000 };
static unsigned longLen() { return LONGB[sym_choice(sizeof LONGB / 4, "len")]; }
HARNESS(h_long) { unsigned n = longLen(), at = sym_choice(3, "at"); byte_vector v(n), pre = make_byte_vector(9, 9, 9, 9); for (unsigned i = 0; i < n; i++) v[i] = (std::byte)(i * 37 + i / 256); unsigned p = at == 0 ? 0 : at == 1 ? n / 2 : n - 3; sym_bytes(&v[p], 3, "bytes"); std::string s = "old"; sym_assert(base64_encode(v, s), "encoding succeeds"); checkEnc((unsigned char*)v.data(), n, s); sym_assert(base64_decode(s, pre) && eq(v, pre), "long sequences decode"); std::string t; sym_assert(write_to_string(v, t) && t.size() == s.size() + 2, "long sequences are written"); byte_vector w = make_byte_vector(1, 2), x; sym_assert(parse(t, x) && eq(v, x), "the parser returns the bytes"); sym_assert(deserialize(t, w) && eq(v, w), "the deserializer returns the bytes"); sym_reach("long"); }
// long texts with one arbitrary character
HARNESS(h_long_decode) { unsigned n = longLen(), m = n / 3 * 4, at = sym_choice(8, "at"); std::string s(m, 'A'); for (unsigned i = 0; i < m; i++) s[i] = (char)refc((i * 29 + i / 64) & 63); unsigned p = at < 4 ? m - 1 - at : at == 4 ? 0 : at == 5 ? m / 2 : at == 6 ? m - 5 : m - 9; sym_bytes(&s[p], 1, "char"); byte_vector v = make_byte_vector(1, 2, 3); bool ok = base64_decode(s, v); checkDec((unsigned char*)s.data(), m, ok, v); std::string u = s.substr(0, m - 1 - sym_choice(3, "cut")); byte_vector w; sym_assert(!base64_decode(u, w), "a text of another length is rejected"); }
