// Self-test of engine and runtime models: every entry is run symbolically and the sampled paths are compared with the native run.
#include "sym.h"
#include <algorithm>
#include <any>
#include <array>
#include <atomic>
#include <bitset>
#include <cctype>
#include <charconv>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <exception>
#include <forward_list>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <queue>
#include <set>
#include <span>
#include <stack>
#include <string>
#include <string_view>
#include <typeindex>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>
#include <limits>
#define T(n) extern "C" void n()
static void obs(uint64_t v) { sym_print("v", v); }
static void obs(const std::string& s) { for (unsigned char c : s) sym_print("c", c); sym_print("n", s.size()); }
static std::string text(unsigned n, const char* lo_hi) { std::string s; unsigned k = sym_choice(n + 1, "len"); for (unsigned i = 0; i < k; i++) { unsigned char c; sym_bytes(&c, 1, "c"); sym_assume(c >= (unsigned char)lo_hi[0] && c <= (unsigned char)lo_hi[1]); s += (char)c; } return s; }
T(t_snprintf) { int a = sym_val<short>("a"), b = (int)sym_choice(70, "b"); char buf[64]; int n = snprintf(buf, sizeof buf, "%04d-%02d|%5d|%-4d|%x|%s|%.*s|%c|%%|%llu|%zu|%03u|%ld", a, b, b, b, b, "abc", 2, "xyz", 'q', 7ull, (size_t)9, (unsigned)b, (long)a); obs(n); obs(std::string(buf)); n = snprintf(buf, 4, "%d", 12345); obs(n); obs(std::string(buf)); }
T(t_sscanf) { std::string s = text(4, "09"); if (s.empty()) return; int a = -1, b = -1; char c = 0; int n = sscanf((s + "-07Z").c_str(), "%4d-%2d%c", &a, &b, &c); obs(n); obs(a); obs(b); obs(c); }
T(t_strtol) { std::string s = text(3, "+:"); char* e; errno = 0; long v = strtol(s.c_str(), &e, 10); obs(v); obs(e - s.c_str()); obs(strtoul(s.c_str(), nullptr, 0)); obs(strtoull(s.c_str(), nullptr, 16)); obs(atoi(s.c_str())); try { obs(std::stoi(s)); } catch (std::invalid_argument&) { obs(1000); } try { obs(std::stoul("99999999999999999999999")); } catch (std::out_of_range&) { obs(1001); } }
T(t_tochars) { int64_t v = sym_val<short>("v"); char b[32]; auto r = std::to_chars(b, b + 32, v); obs(std::string(b, r.ptr)); int64_t w = 0; auto q = std::from_chars(b, r.ptr, w); obs(w); obs(q.ptr - b); obs(std::to_string(v)); uint64_t u = 1; std::from_chars("ff", "ff" + 2, u, 16); obs(u); }
T(t_cstr) { std::string s = text(3, "ad"); const char* p = s.c_str(); obs(strstr("xabcx", p) ? 1 : 0); obs(strspn(p, "ab")); obs(strcspn(p, "d")); char b[16] = ""; strcpy(b, p); strcat(b, "z"); strncpy(b + 8, p, 4); b[12] = 0; obs(std::string(b)); obs(strrchr(b, 'a') ? strrchr(b, 'a') - b : -1); obs(memrchr(b, 'a', 3) ? 1 : 0); obs(strnlen(b, 2)); obs(strpbrk(p, "cd") ? 1 : 0); obs(std::string(stpcpy(b, p) - 0)); char* d = strdup(p); obs(std::string(d)); free(d); obs(memmem("abcd", 4, p, s.size()) ? 1 : 0); obs(strcasecmp(p, "AB") == 0); }
T(t_ctype) { unsigned char c = sym_val<unsigned char>("c"); unsigned r = 0; r = (r << 1) | !!isdigit(c); r = (r << 1) | !!isalpha(c); r = (r << 1) | !!isalnum(c); r = (r << 1) | !!isspace(c); r = (r << 1) | !!isxdigit(c); r = (r << 1) | !!isupper(c); r = (r << 1) | !!islower(c); r = (r << 1) | !!isprint(c); r = (r << 1) | !!iscntrl(c); r = (r << 1) | !!ispunct(c); r = (r << 1) | !!isgraph(c); obs(r); obs(toupper(c)); obs(tolower(c)); }
static int cmpi(const void* a, const void* b) { return *(const int*)a - *(const int*)b; }
T(t_sort) { std::vector<int> v; for (int i = 0; i < 3; i++) v.push_back(sym_val<signed char>("x")); auto w = v; std::sort(v.begin(), v.end()); for (int x : v) obs(x); std::stable_sort(w.begin(), w.end(), std::greater<>()); for (int x : w) obs(x); int a[5] = { 5, 3, 1, 4, 2 }; qsort(a, 5, 4, cmpi); for (int x : a) obs(x); int k = (int)sym_choice(7, "k"); int* p = (int*)bsearch(&k, a, 5, 4, cmpi); obs(p ? p - a : 9); obs(std::lower_bound(a, a + 5, k) - a); obs(std::accumulate(a, a + 5, 0)); }
T(t_list) { std::list<int> l; for (int i = 0; i < 4; i++) l.push_back(sym_val<signed char>("x")); l.sort(); l.reverse(); l.push_front(3); l.remove(3); std::list<int> m{1, 2}; l.splice(l.begin(), m); for (int x : l) obs(x); l.unique(); l.erase(l.begin()); std::list<int> k = std::move(l); k.swap(m); obs(m.size()); std::forward_list<int> f{3, 1, 2}; f.sort(); f.push_front(7); for (int x : f) obs(x); }
T(t_cont) { std::deque<int> d; for (int i = 0; i < 5; i++) { d.push_front(i); d.push_back(i); } obs(d[3]); std::stack<int> st; st.push(3); obs(st.top()); std::priority_queue<int> q; q.push(1); q.push(4); obs(q.top()); std::multimap<int, int> mm{{1, 2}, {1, 3}}; obs(mm.count(1)); std::unordered_set<std::string> us{"a", "b", "a"}; obs(us.size()); us.reserve(100); us.erase("a"); obs(us.size()); std::unordered_map<double, int> ud{{0.5, 1}}; obs(ud[0.5]); std::bitset<9> b(5); obs(b.count()); std::array<int, 3> a{1, 2, 3}; obs(a.at(1)); std::unordered_multimap<int, int> um{{1, 1}, {1, 2}}; obs(um.count(1)); std::multiset<int> ms{3, 1, 3}; ms.erase(ms.begin()); obs(*ms.begin());
  std::map<int, int> m; for (int i = 0; i < 20; i++) m[(i * 7) % 20] = i; m.erase(5); m.erase(m.find(0)); auto h = m.extract(7); h.key() = 100; m.insert(std::move(h)); obs(m.rbegin()->first); obs(m.lower_bound(5)->first); m.merge(std::map<int, int>{{5, 5}}); obs(m.size()); try { m.at(77); } catch (std::out_of_range&) { obs(1); } }
struct Base { virtual ~Base() {} virtual int f() { return 1; } }; struct Der : Base { int f() override { return 2; } };
T(t_ptr) { std::shared_ptr<Base> p = std::make_shared<Der>(); std::weak_ptr<Base> w = p; obs(w.lock()->f()); obs(p.use_count()); auto d = std::dynamic_pointer_cast<Der>(p); obs(d->f()); d.reset(); p.reset(); obs(w.expired()); try { std::shared_ptr<Base> q(w); } catch (std::bad_weak_ptr&) { obs(7); } std::unique_ptr<Base[]> u(new Base[2]); std::any a = 5; obs(std::any_cast<int>(a)); try { std::any_cast<char>(a); } catch (std::bad_any_cast&) { obs(8); } std::function<int(int)> fn = [&](int x) { return x + 1; }; obs(fn(1)); fn = nullptr; try { fn(1); } catch (std::bad_function_call&) { obs(9); } try { std::optional<int>().value(); } catch (std::bad_optional_access&) { obs(10); } try { std::variant<int, char> v = 1; std::get<char>(v); } catch (std::bad_variant_access&) { obs(11); } obs(typeid(*std::make_unique<Der>()) == typeid(Der)); obs(std::type_index(typeid(int)) == std::type_index(typeid(int))); std::unordered_map<std::type_index, int> ti; ti[typeid(int)] = 3; obs(ti[typeid(int)]); auto al = std::make_shared<int[]>(4); al[3] = 1; obs(al[3]); }
T(t_exc) { int k = (int)sym_choice(4, "k"); std::exception_ptr e; try { try { if (k == 0) throw std::runtime_error("a"); if (k == 1) throw 5; if (k == 2) throw std::out_of_range("zz"); obs(0); } catch (std::logic_error& x) { obs(std::string(x.what())); throw; } catch (...) { e = std::current_exception(); throw; } } catch (std::exception& x) { obs(std::string(x.what())); } catch (int i) { obs(i); } if (e) try { std::rethrow_exception(e); } catch (std::exception& x) { obs(std::string(x.what())); } catch (int i) { obs(i); } obs(std::uncaught_exceptions()); struct G { int n = std::uncaught_exceptions(); ~G() { obs(std::uncaught_exceptions() > n); } }; try { G g; if (k) throw 1; } catch (int) {} e = std::make_exception_ptr(3); try { std::rethrow_exception(e); } catch (int i) { obs(i); } }
T(t_mutex) { static std::mutex m; { std::lock_guard<std::mutex> l(m); obs(1); } static std::recursive_mutex rm; { std::scoped_lock l(rm); obs(2); } static std::once_flag f; int n = 0; for (int i = 0; i < 2; i++) std::call_once(f, [&] { n++; }); obs(n); static thread_local int tl = 4; obs(tl++); std::atomic<int> a{3}; a.fetch_add(2); int x = 5; obs(a.compare_exchange_strong(x, 8)); obs(a.load()); a.fetch_or(1); obs(a.exchange(4)); std::atomic_flag fl = ATOMIC_FLAG_INIT; obs(fl.test_and_set()); std::unique_lock<std::mutex> ul(m, std::try_to_lock); obs(ul.owns_lock()); static thread_local std::string ts = "abc"; obs(ts); }
T(t_math) { double d = sym_val<signed char>("d") / 4.0; obs((int64_t)std::floor(d)); obs((int64_t)std::ceil(d)); obs((int64_t)std::trunc(d)); obs((int64_t)std::round(d)); obs((int64_t)std::rint(d)); obs((int64_t)std::lround(d)); obs((int64_t)std::llround(d)); obs(std::fabs(d) * 4); double ip; obs((int64_t)(std::modf(d, &ip) * 4)); obs((int64_t)ip); obs(std::isfinite(d)); obs(std::signbit(d)); obs((int64_t)std::fmax(d, 2)); obs((int64_t)std::fmin(d, 2)); obs(std::isnan(d)); obs(std::isinf(d)); obs((int64_t)std::fmod(d, 4) ); obs((int64_t)std::nearbyint(d)); obs(std::fpclassify(d)); obs((int64_t)std::sqrt(16.0)); obs(std::lerp(0.0, 1.0, 0.5) > 0); obs(std::midpoint(3, 9)); obs(std::gcd(12, 18)); }
T(t_time) { time_t t = (time_t)sym_val<unsigned char>("t") * 86400 * 37 - 86400 * 1000; struct tm r; gmtime_r(&t, &r); obs(r.tm_year); obs(r.tm_mon); obs(r.tm_mday); obs(r.tm_hour); obs(r.tm_wday); obs(r.tm_yday); obs((uint64_t)timegm(&r)); using namespace std::chrono; auto tp = system_clock::from_time_t(t); obs((uint64_t)duration_cast<hours>(tp.time_since_epoch()).count()); auto ymd = year_month_day(floor<days>(tp)); obs((int)ymd.year()); obs((unsigned)ymd.month()); char b[40]; size_t n = strftime(b, sizeof b, "%Y-%m-%dT%H:%M:%SZ", &r); obs(std::string(b, n)); struct tm q = {}; q.tm_year = 100; q.tm_mon = 13; q.tm_mday = 45; q.tm_hour = 30; obs((uint64_t)timegm(&q)); obs(q.tm_mon); obs(q.tm_mday); char* e = strptime("2020-02-03", "%Y-%m-%d", &q); obs(e ? 1 : 0); obs(q.tm_year); }
T(t_str) { std::string s = text(3, "ac"); obs(s.find("b")); obs(s.rfind('a')); obs(s.find_first_of("bc")); obs(s.find_last_not_of("a")); obs(s.compare("b") < 0); s.insert(0, "zz"); s.replace(0, 1, "yyy"); s.erase(1, 1); obs(s.substr(1)); s.resize(20, 'q'); s.shrink_to_fit(); s.append(3, 'x').push_back('y'); obs(s); std::string_view v = s; v.remove_prefix(2); obs(v.starts_with("q")); obs(v.find("xx")); obs(s.ends_with("y")); try { s.at(100); } catch (std::out_of_range&) { obs(1); } try { s.substr(100); } catch (std::out_of_range&) { obs(2); } std::u16string u(3, u'a'); obs(u.size()); std::wstring w(3, L'a'); obs(w.size()); std::u32string u3(5, U'a'); obs(u3.size()); obs(std::hash<std::string>()("") == std::hash<std::string_view>()("")); s.reserve(100); s.clear(); obs(s.empty()); std::vector<char> vc(5); vc.insert(vc.begin() + 2, 3, 'c'); obs(vc.size()); std::reverse(vc.begin(), vc.end()); std::rotate(vc.begin(), vc.begin() + 1, vc.end()); obs(vc[0]); vc.shrink_to_fit(); std::span<char> sp(vc); obs(sp.size()); }
struct Big { char c[300]; }; static int vsum(int n, ...) { va_list a, b; va_start(a, n); va_copy(b, a); int s = 0; for (int i = 0; i < n; i++) s += va_arg(a, int); s += (int)va_arg(a, double); va_end(a); s += va_arg(b, int); va_end(b); return s; }
T(t_misc) { int x = (int)sym_choice(3, "x"); obs(vsum(3, 1, 2, x, 4.0)); Big* b = new (std::nothrow) Big(); delete b; void* p = aligned_alloc(64, 128); free(p); struct alignas(64) Al { char c[64]; }; auto* al = new Al; delete al; static int tab[3] = { 10, 20, 30 }; obs(tab[x]); unsigned __int128 w = (unsigned __int128)x * 0xffffffffffffffffull; obs((uint64_t)(w >> 64)); obs(__builtin_popcountll(x)); obs(__builtin_clz(x + 1)); obs(__builtin_bswap32(x)); alignas(16) char buf[32]; auto* q = new (buf) std::string("abc"); q->~basic_string(); std::pair<const int, std::string> pr(1, "x"); obs(pr.second); int arr[x + 1]; arr[x] = 3; obs(arr[x]); char* env = getenv("NO_SUCH_VARIABLE_X"); obs(env ? 1 : 0); }
