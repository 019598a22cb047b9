// C02: a JSON number is stored only if the target type represents it; otherwise the read fails.
#include "numctx.hpp"
#include <persistence/number.hpp>
enum class EC : signed char { a }; enum class EU : unsigned short { a }; enum class EI : int { a }; enum class EL : long long { a }; enum class EUL : unsigned long long { a };
#define H(n, T) HARNESS(h_##n) { ints<T>(); }
H(char, char) H(schar, signed char) H(uchar, unsigned char) H(short, short) H(ushort, unsigned short) H(int, int) H(uint, unsigned) H(long, long) H(ulong, unsigned long) H(llong, long long) H(ullong, unsigned long long)
H(echar, EC) H(eushort, EU) H(eint, EI) H(ellong, EL) H(eullong, EUL)
// floating-point targets
template <class T, class C, class F> static void flrun(const Num& n, const char* pre, const char* post, F get, const char* ctx) {
  std::string s = pre + n.text + post; constexpr int64_t lim = (int64_t)1 << std::numeric_limits<T>::digits;
  C p{}, q{}; bool pok = parse(s, p), dok = deserialize(s, q);
  if (n.kind == 2) { bool in = n.d >= std::numeric_limits<T>::lowest() && n.d <= std::numeric_limits<T>::max();
    sym_assert(pok == in, "the parser accepts a double exactly when it is in range"); if (pok) sym_assert(eq<T>(get(p), (T)n.d), "the parser rounds to nearest");
    sym_assert(dok == in, "the deserializer accepts a double exactly when it is in range"); if (dok) sym_assert(eq<T>(get(q), (T)n.d), "the deserializer rounds to nearest"); }
  else { bool exact = n.kind == 0 ? n.i > -lim && n.i < lim : n.u < (uint64_t)lim; T v = n.kind == 0 ? (T)n.i : (T)n.u;
    if (exact) sym_assert(pok, "the parser accepts integers within the mantissa");
    if (pok) { sym_assert(get(p) == v, "the parser stores the integer"); sym_assert(exact || (n.kind == 0 ? (v > -9.3e18 && v < 9.2e18 && (int64_t)v == n.i) : (v < 1.8e19 && (uint64_t)v == n.u)), "the parser never rounds an integer"); }
    sym_assert(dok, "the deserializer accepts integers"); if (exact) sym_assert(get(q) == v, "the deserializer stores integers within the mantissa exactly"); }
  sym_reach(ctx); }
template <class T> static void floats() { Num n = number();
  switch (sym_choice(5, "context")) {
    case 0: flrun<T, T>(n, "", "", [](T& w) { return w; }, "plain"); break;
    case 1: flrun<T, std::vector<T>>(n, "[1,", "]", [](std::vector<T>& w) { return w.at(1); }, "vector"); break;
    case 2: flrun<T, std::set<T>>(n, "[", "]", [](std::set<T>& w) { return *w.begin(); }, "set"); break;
    case 3: flrun<T, std::array<T, 2>>(n, "[", ",1]", [](std::array<T, 2>& w) { return w[0]; }, "array"); break;
    case 4: flrun<T, Wrap3<T>>(n, "{\"a\":true,\"v\":", ",\"b\":true}", [](Wrap3<T>& w) { return w.v; }, "member"); break;
  } }
HARNESS(h_float) { floats<float>(); }
HARNESS(h_double) { floats<double>(); }
#ifndef TXT
#define TXT 4
#endif
// decimal literal parser on arbitrary text
template <class T> static void lit() { unsigned n = sym_choice(TXT + 1, "len"); char b[TXT + 1]; sym_bytes(b, n, "text"); T v{}; bool ok = parse_number(std::string_view(b, n), v);
  unsigned i = 0; bool neg = false; if (std::is_signed_v<T> && n && b[0] == '-') { neg = true; i = 1; } bool want = i < n; int r = 0; for (; i < n && want; i++) { if (b[i] < '0' || b[i] > '9') want = false; else r = r * 10 + (b[i] - '0'); } if (neg) r = -r;
  if (want && (r < (int)std::numeric_limits<T>::min() || r > (int)std::numeric_limits<T>::max())) want = false;
  sym_assert(ok == want, "a decimal literal is accepted exactly when it denotes a value of the type"); if (ok) { sym_assert((int)v == r, "a decimal literal denotes its value"); sym_reach("value"); } else sym_reach("rejected"); }
HARNESS(h_lit_schar) { lit<signed char>(); }
HARNESS(h_lit_uchar) { lit<unsigned char>(); }
