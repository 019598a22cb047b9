// C05: ISO 8601 dates and date-times against an independent calendar.
#include "common.hpp"
#include <chrono>
#include <ctime>
using ymd = std::chrono::year_month_day;
static bool dig(unsigned char c) { return (c >= '0') & (c <= '9'); }
static unsigned two(const char* p) { return (unsigned)(p[0] - '0') * 10 + (unsigned)(p[1] - '0'); }
static unsigned four(const char* p) { return two(p) * 100 + two(p + 2); }
static unsigned mlen(unsigned y, unsigned m) { static const unsigned char L[13] = { 0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; bool leap = (y % 4 == 0) & ((y % 100 != 0) | (y % 400 == 0)); return m < 1 || m > 12 ? 0 : L[m] + (m == 2 && leap); }
static bool refDate(const char* t) { bool ok = true; for (int i = 0; i < 10; i++) ok = ok & (i == 4 || i == 7 ? t[i] == '-' : dig(t[i])); if (!ok) return false; unsigned y = four(t), m = two(t + 5), d = two(t + 8); return m >= 1 && m <= 12 && d >= 1 && d <= mlen(y, m); }
// days since 1970-01-01 by summing years and months (independent of the implementation and of the libc model)
static long long days(long long y, unsigned m, unsigned d) { long long p = y - 1; long long n = y * 365 + (y > 0 ? p / 4 - p / 100 + p / 400 + 1 : 0); static const unsigned short C[13] = { 0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 }; bool leap = (y % 4 == 0) & ((y % 100 != 0) | (y % 400 == 0)); n += C[m] + (m > 2 && leap) + d - 1; return n - 719528; }
static void printable(const std::string& s) { for (unsigned char c : s) sym_assume(c >= 0x20 && c != '"' && c != '\\'); }
template <class T> struct Res { bool ok; T v; };
template <class T> static void both(const std::string& s, Res<T>& p, Res<T>& q) { std::string t = "\"" + s + "\""; p.ok = parse(t, p.v); q.ok = deserialize(t, q.v); }
// every 10-character text read as a date
HARNESS(h_date) { std::string s = sym_string(10, "text"); printable(s); Res<ymd> p{}, q{}; both(s, p, q); bool want = refDate(s.data());
  sym_assert(p.ok == want, "the parser accepts exactly the valid calendar dates"); sym_assert(q.ok == want, "the deserializer accepts exactly the valid calendar dates");
  if (want) { unsigned y = four(s.data()), m = two(&s[5]), d = two(&s[8]); sym_assert((int)p.v.year() == (int)y && (unsigned)p.v.month() == m && (unsigned)p.v.day() == d, "the parser returns the date"); sym_assert(p.v == q.v, "the deserializer returns the date"); sym_reach("valid"); } else sym_reach("invalid"); }
HARNESS(h_length) { unsigned n = sym_choice(23, "len"); std::string s = sym_string(n, "text"); printable(s); Res<ymd> p{}, q{}; Res<timestamp> r{}, t{};
  if (n != 10) { both(s, p, q); sym_assert(!p.ok && !q.ok, "a text of another length is no date"); sym_reach("date"); } if (n != 20) { both(s, r, t); sym_assert(!r.ok && !t.ok, "a text of another length is no date-time"); sym_reach("datetime"); } }
static bool refDateTime(const char* t) { bool ok = true; for (int i = 11; i < 20; i++) ok = ok & (i == 13 || i == 16 ? t[i] == ':' : i == 19 ? t[i] == 'Z' : dig(t[i])); ok = ok & ((t[10] == 'T') | (t[10] == ' ')); return ok && refDate(t) && two(t + 11) < 24 && two(t + 14) < 60 && two(t + 17) < 60; }
static constexpr long long TMIN = -9223372036ll, TMAX = 9223372036ll;  // whole seconds of a 64-bit nanosecond clock
static long long secs(timestamp t) { return std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count() / 1000000000; }
static bool whole(timestamp t) { return std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count() % 1000000000 == 0; }
// every 20-character text: acceptance
HARNESS(h_datetime) { std::string s = sym_string(20, "text"); printable(s);
  sym_assume(s[0] == '1' || s[0] == '2' || !dig(s[0])); sym_assume(!(s[0] == '1' && s[1] <= '6')); sym_assume(!(s[0] == '2' && s[1] >= '2')); // years 1700..2199
  Res<timestamp> p{}, q{}; both(s, p, q); bool want = refDateTime(s.data());
  sym_assert(p.ok == want, "the parser accepts exactly the valid date-times"); sym_assert(q.ok == want, "the deserializer accepts exactly the valid date-times"); sym_reach(want ? "valid" : "invalid"); }

static const unsigned short YEARS[] = { 0, 1, 1583, 1676, 1677, 1678, 1700, 1752, 1899, 1900, 1904, 1969, 1970, 1971, 1972, 1999, 2000, 2001, 2004, 2022, 2038, 2096, 2100, 2101, 2200, 2261, 2262, 2263, 2400, 9999 };
#ifdef Y0
static unsigned year() { unsigned short y; sym_bytes(&y, 2, "year"); sym_assume(y >= Y0 && y <= Y1); return (unsigned)sym_concretize(y); }
#else
static unsigned year() { return YEARS[sym_choice(sizeof YEARS / 2, "year")]; }
#endif
static std::string dd(unsigned v, unsigned n) { std::string s(n, '0'); for (unsigned i = n; i-- > 0; v /= 10) s[i] = (char)('0' + v % 10); return s; }
static char digit(const char* n) { char c; sym_bytes(&c, 1, n); sym_assume(dig(c)); return c; }
struct Fields { unsigned y, m, f[4]; long long t; };
// year and month split into cases; one of day, hour, minute, second arbitrary, the others at three edge values
static Fields fields() { Fields r; r.y = year(); r.m = 1 + sym_choice(12, "month"); unsigned w = sym_choice(4, "field"), e = sym_choice(3, "edge"), L = mlen(r.y, r.m); r.f[0] = e == 0 ? 1 : e == 1 ? L : 10; r.f[1] = e == 0 ? 0 : e == 1 ? 23 : 9; r.f[2] = e == 0 ? 0 : e == 1 ? 59 : 10; r.f[3] = e == 0 ? 0 : e == 1 ? 59 : 7;
  unsigned char x; sym_bytes(&x, 1, "x"); sym_assume(w == 0 ? x >= 1 && x <= L : w == 1 ? x < 24 : x < 60); r.f[w] = x; r.t = days(r.y, r.m, 1) * 86400 + (long long)(r.f[0] - 1) * 86400 + r.f[1] * 3600 + r.f[2] * 60 + r.f[3]; return r; }
static std::string text(const Fields& r) { return dd(r.y, 4) + "-" + dd(r.m, 2) + "-" + dd(r.f[0], 2) + "T" + dd(r.f[1], 2) + ":" + dd(r.f[2], 2) + ":" + dd(r.f[3], 2) + "Z"; }
HARNESS(h_value) { Fields r = fields(); std::string s = text(r); Res<timestamp> p{}, q{}; both(s, p, q); bool in = r.t >= TMIN && r.t <= TMAX;
  sym_assert(p.ok == in, "the parser accepts every representable date-time and no other"); sym_assert(q.ok == in, "the deserializer accepts every representable date-time and no other");
  if (in) { sym_assert(std::chrono::duration_cast<std::chrono::nanoseconds>(p.v.time_since_epoch()).count() == r.t * 1000000000, "the parser returns the time point"); sym_assert(p.v == q.v, "the deserializer returns the time point"); sym_reach("in range"); } else sym_reach("out of range"); }
HARNESS(h_make) { unsigned y = year(), m = 1 + sym_choice(12, "month"); sym_assume(y >= 1678 && y <= 2261); unsigned char d, h, mi, s; sym_bytes(&d, 1, "d"); sym_bytes(&h, 1, "h"); sym_bytes(&mi, 1, "m"); sym_bytes(&s, 1, "s"); sym_assume(d >= 1 && d <= mlen(y, m)); sym_assume(h < 24); sym_assume(mi < 60); sym_assume(s < 60);
  timestamp v = make_datetime(y, m, d, h, mi, s); long long want = days(y, m, 1) * 86400 + (d - 1) * 86400ll + h * 3600 + mi * 60 + s; sym_assert(std::chrono::duration_cast<std::chrono::nanoseconds>(v.time_since_epoch()).count() == want * 1000000000, "time point of a calendar date and time"); sym_reach("made"); }
HARNESS(h_format) { Fields r = fields(); sym_assume(r.t >= TMIN && r.t <= TMAX); timestamp v{ std::chrono::nanoseconds(r.t * 1000000000) }; std::string s, want = "\"" + text(r) + "\""; sym_assert(write_to_string(v, s), "a date-time is written");
  sym_assert(s == want, "a date-time is written as its ISO 8601 text"); Document d; sym_assert(serialize_to_document(v, d), "a date-time is stored"); sym_assert(document_to_string(d) == want, "a date-time is stored as its ISO 8601 text"); sym_reach("written"); }
HARNESS(h_format_date) { unsigned y = year(), m = 1 + sym_choice(12, "month"); unsigned char x; sym_bytes(&x, 1, "day"); sym_assume(x >= 1 && x <= mlen(y, m)); ymd v{ std::chrono::year((int)y), std::chrono::month(m), std::chrono::day(x) };
  std::string s, want = "\"" + dd(y, 4) + "-" + dd(m, 2) + "-" + dd(x, 2) + "\""; sym_assert(write_to_string(v, s) && s == want, "a date is written as its ISO 8601 text"); Document d; sym_assert(serialize_to_document(v, d) && document_to_string(d) == want, "a date is stored as its ISO 8601 text");
  ymd p{}, q{}; sym_assert(parse(s, p) && p == v, "the written date reads back by the parser"); sym_assert(deserialize(s, q) && q == v, "the written date reads back by the deserializer"); sym_reach("written"); }
template <class W> struct Wrap { W v{}; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(v); } };
// round trip of a symbolic second-resolution instant inside one symbolic hour window; nanosecond part dropped for times after 1970
HARNESS(h_subsecond) { unsigned char a; sym_bytes(&a, 1, "sec"); unsigned ns; sym_bytes(&ns, 4, "ns"); sym_assume(ns < 1000000000u); long long base = sym_choice(2, "base") ? 1700000000ll : 0; timestamp v{ std::chrono::nanoseconds((base + a) * 1000000000 + ns) }; std::string s; sym_assert(write_to_string(v, s), "written"); timestamp w{}; sym_assert(parse(s, w), "read back"); sym_assert(w.time_since_epoch().count() == (base + a) * 1000000000, "whole seconds survive"); sym_reach("subsecond"); }
// dates and times wherever they appear
template <class W> struct Wrap3 { bool a = false; W v{}; std::string b; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(v) & MEMBER_VARIABLE(b); } };
template <class C, class T, class F> static void in(const std::string& lit, bool want, T v, const std::string& pre, const std::string& post, F get) { std::string s = pre + lit + post; { C w{}; bool ok = parse(s, w); sym_assert(ok == want, "the parser accepts exactly the valid texts in every position"); if (ok) { sym_assert(get(w) == v, "the parser returns the value in every position"); std::string u; sym_assert(write_to_string(w, u) && u == s, "the same text is written in every position"); Document d; sym_assert(serialize_to_document(w, d) && document_to_string(d) == s, "the same text is stored in every position"); } } { C w{}; bool ok = deserialize(s, w); sym_assert(ok == want, "the deserializer accepts exactly the valid texts in every position"); if (ok) sym_assert(get(w) == v, "the deserializer returns the value in every position"); } sym_reach(want ? "valid" : "invalid"); }
template <class T> static void positions(const std::string& t, bool want, T v, const std::string& other) { std::string n = "\"" + t + "\"", o = "\"" + other + "\""; switch (sym_choice(12, "context")) { case 0: in<T>(n, want, v, "", "", [](T& w) { return w; }); break; case 1: in<std::vector<T>>(n, want, v, "[" + o + ",", "]", [](std::vector<T>& w) { return w.at(1); }); break; case 2: in<std::set<T>>(n, want, v, "[", "]", [](std::set<T>& w) { return *w.begin(); }); break; case 3: in<std::array<T, 2>>(n, want, v, "[", "," + o + "]", [](std::array<T, 2>& w) { return w[0]; }); break; case 4: in<std::pair<bool, T>>(n, want, v, "[true,", "]", [](std::pair<bool, T>& w) { return w.second; }); break; case 5: in<std::map<std::string, T>>(n, want, v, "{\"k\":", "}", [](std::map<std::string, T>& w) { return w["k"]; }); break; case 6: in<Wrap<T>>(n, want, v, "{\"v\":", "}", [](Wrap<T>& w) { return w.v; }); break; case 7: in<Wrap<std::optional<T>>>(n, want, v, "{\"v\":", "}", [](Wrap<std::optional<T>>& w) { return w.v.value(); }); break; case 8: in<std::tuple<T, T, std::string>>(n, want, v, "[" + o + ",", ",\"\"]", [](std::tuple<T, T, std::string>& w) { return std::get<1>(w); }); break; case 9: in<Wrap3<T>>(n, want, v, "{\"a\":true,\"v\":", ",\"b\":\"\"}", [](Wrap3<T>& w) { return w.v; }); break; case 10: in<std::vector<std::unique_ptr<T>>>(n, want, v, "[", "]", [](std::vector<std::unique_ptr<T>>& w) { return *w[0]; }); break; case 11: in<std::unordered_map<std::string, std::vector<T>>>(n, want, v, "{\"k\":[" + o + "," + o + ",", "]}", [](std::unordered_map<std::string, std::vector<T>>& w) { return w["k"].at(2); }); break; } }
HARNESS(h_ctx_date) { std::string s = "2024-02-2"; unsigned k = sym_choice(3, "form"); if (k == 0) s = "1999-1" + std::string(1, digit("d")) + "-31"; else if (k == 1) s = std::string("2") + digit("d") + "00-02-29"; else { s += digit("d"); if (sym_choice(2, "longer")) s += "Z"; } bool want = s.size() == 10 && refDate(s.data()); ymd v{}; if (want) v = ymd(std::chrono::year((int)four(s.data())), std::chrono::month(two(&s[5])), std::chrono::day(two(&s[8]))); positions<ymd>(s, want, v, "2020-01-01"); }
HARNESS(h_ctx_time) { std::string s = "2024-02-28T12:30:59Z"; static const unsigned char AT[] = { 3, 9, 12, 14, 17 }; s[AT[sym_choice(5, "at")]] = digit("d"); unsigned k = sym_choice(3, "form"); if (k == 1) s.pop_back(); if (k == 2) s[19] = 'z'; bool want = k == 0 && refDateTime(s.data()); timestamp v{}; if (want) v = timestamp(std::chrono::seconds(days(four(s.data()), two(&s[5]), two(&s[8])) * 86400 + two(&s[11]) * 3600 + two(&s[14]) * 60 + two(&s[17]))); positions<timestamp>(s, want, v, "2020-01-01T00:00:00Z"); }
// every year: the day before, on and after the ends of February and of the year
static unsigned anyYear(unsigned lo, unsigned n) { unsigned h = sym_choice((n + 99) / 100, "century"), y = h * 100 + sym_choice(100, "year"); sym_assume(y < n); return lo + y; }
static void edgeDay(unsigned y, unsigned& m, unsigned& d) { switch (sym_choice(5, "day")) { case 0: m = 1; d = 1; break; case 1: m = 2; d = 28; break; case 2: m = 2; d = 29; break; case 3: m = 3; d = 1; break; default: m = 12; d = 31; } }
HARNESS(h_years) { Fields r{}; r.y = anyYear(1676, 588); edgeDay(r.y, r.m, r.f[0]); unsigned e = sym_choice(2, "time"); r.f[1] = e ? 23 : 0; r.f[2] = e ? 59 : 0; r.f[3] = e ? 59 : 0; std::string s = text(r); Res<timestamp> p{}, q{}; both(s, p, q); bool valid = r.f[0] <= mlen(r.y, r.m); r.t = valid ? days(r.y, r.m, r.f[0]) * 86400 + r.f[1] * 3600 + r.f[2] * 60 + r.f[3] : 0; bool in = valid && r.t >= TMIN && r.t <= TMAX;
  sym_assert(p.ok == in, "the parser accepts every representable date-time and no other"); sym_assert(q.ok == in, "the deserializer accepts every representable date-time and no other"); if (!in) { sym_reach("rejected"); return; }
  sym_assert(std::chrono::duration_cast<std::chrono::nanoseconds>(p.v.time_since_epoch()).count() == r.t * 1000000000, "the parser returns the time point"); sym_assert(p.v == q.v, "the deserializer returns the time point"); std::string u; sym_assert(write_to_string(p.v, u) && u == "\"" + s + "\"", "a date-time is written as its ISO 8601 text"); sym_reach("accepted"); }
HARNESS(h_date_years) { unsigned y = anyYear(0, 10000), m, d; edgeDay(y, m, d); std::string s = dd(y, 4) + "-" + dd(m, 2) + "-" + dd(d, 2); Res<ymd> p{}, q{}; both(s, p, q); bool want = d <= mlen(y, m); sym_assert(p.ok == want && q.ok == want, "exactly the valid dates of every year are accepted"); if (!want) { sym_reach("rejected"); return; }
  ymd v{ std::chrono::year((int)y), std::chrono::month(m), std::chrono::day(d) }; sym_assert(p.v == v && q.v == v, "the date of every year is returned"); std::string u; sym_assert(write_to_string(v, u) && u == "\"" + s + "\"", "a date is written as its ISO 8601 text"); Document c; sym_assert(serialize_to_document(v, c) && document_to_string(c) == u, "a date is stored as its ISO 8601 text"); sym_reach("accepted"); }
