// C21: every finite floating-point value survives.
#include "long.hpp"
template <class F> static bool isFinite(F x) { return x - x == 0; }
template <class F> struct Mem { bool x = true; F a = 0; std::optional<F> b; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(x) & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(b); } bool operator==(const Mem& o) const { return x == o.x && eq(a, o.a) && eq(b, o.b); } };
template <class F> struct Der : Mem<F> { F d = 0; template <class A> constexpr auto persist(A& ar) { return this->Mem<F>::persist(ar) & MEMBER_VARIABLE_DEFAULT(d); } bool operator==(const Der& o) const { return Mem<F>::operator==(o) && eq(d, o.d); } };
// txt: also through text
template <class C> static void trip(const C& c, bool txt) { Document d; sym_assert(serialize_to_document(c, d), "a finite number is stored"); { C w{}; sym_assert(deserialize(d, w) && eq(w, c), "a document returns the same number"); } std::string s; sym_assert(write_to_string(c, s), "a finite number is written"); if (txt) { C w{}; sym_assert(parse(s, w) && eq(w, c), "the parser returns the same number"); C x{}; sym_assert(deserialize(s, x) && eq(x, c), "the deserializer returns the same number"); C y{}; sym_assert(parse(document_to_string(d), y) && eq(y, c), "the text of the document reads back"); } sym_reach("round trip"); }
template <class F, class G> static void where(G make, bool txt) { F x = make(), y = make(); switch (sym_choice(14, "where")) { case 0: trip(x, txt); break; case 1: trip(V<F>{ x, y }, txt); break; case 2: trip(std::set<F>{ x }, txt); break; case 3: trip(A<F, 2>{ x, y }, txt); break; case 4: trip(P<bool, F>{ true, x }, txt); break; case 5: trip(T<F, S, F>{ x, "s", y }, txt); break; case 6: trip(M<F>{ { "a", x }, { "b", y } }, txt); break; case 7: trip(UM<F>{ { "a", x } }, txt); break; case 8: trip(std::make_unique<F>(x), txt); break; case 9: trip(V<SP<F>>{ std::make_shared<F>(x) }, txt); break; case 10: { Mem<F> m; m.a = x; m.b = y; trip(m, txt); break; } case 11: { Mem<F> m; m.a = x; trip(V<Mem<F>>{ m }, txt); break; } case 12: { Der<F> m; m.a = x; m.d = y; trip(m, txt); break; } case 13: trip(V<V<F>>{ { x }, {}, { y } }, txt); break; } }
template <class F> static F all() { F x = sym_val<F>("x"); sym_assume(isFinite(x)); return x; }
HARNESS(h_double) { where<double>(all<double>, false); } HARNESS(h_float) { where<float>(all<float>, false); }
// numbers with few digits: multiples of a quarter
template <class F> static F quarter() { int m = sym_val<int>("m"); sym_assume(m > -(1 << 22)); sym_assume(m < 1 << 22); return (F)m * (F)0.25; }
HARNESS(h_text_double) { where<double>(quarter<double>, true); } HARNESS(h_text_float) { where<float>(quarter<float>, true); }
// long lists with one arbitrary number
HARNESS(h_among) { double x = all<double>(); unsigned n = 1 + sym_choice(20, "n"), k = sym_choice(n, "k"); V<double> v; for (unsigned i = 0; i < n; i++) v.push_back(i == k ? x : i * 0.25 - 1); trip(v, false); trip(M<V<double>>{ { "a", v }, { "b", {} } }, false); }
// the four ways a number is offered: integer of either sign, large unsigned, fraction
template <class F> static void offered() { JV v; v.k = JV::Dbl; v.d = sym_val<double>("d"); sym_assume(isFinite(v.d)); bool in = v.d >= std::numeric_limits<F>::lowest() && v.d <= std::numeric_limits<F>::max(); Document d; dtree(v, d); F w = 0; bool r = deserialize(d, w); sym_assert(r == in, "a number in a document is accepted exactly when it is in range"); if (r) sym_assert(eq(w, (F)v.d), "a number in a document is rounded to nearest"); F x = 0; bool t = true; try { x = deserialize<F>(d); } catch (const JsonDeserializationError&) { t = false; } sym_assert(t == in && (!t || eq(x, w)), "both readers of a document agree"); sym_reach(in ? "in range" : "out of range"); }
HARNESS(h_offer_double) { offered<double>(); } HARNESS(h_offer_float) { offered<float>(); }
HARNESS(h_sweep) { double x = all<double>(); unsigned n = 1 + sweepSize(), k = sym_choice(3, "k"); k = k == 0 ? n - 1 : k == 1 ? 0 : n / 2; V<double> v; V<float> f; for (unsigned i = 0; i < n; i++) { v.push_back(i == k ? x : i * 0.25 - 1); f.push_back((float)(i * 0.5)); } trip(v, false); trip(M<V<double>>{ { "a", v }, { "b", {} } }, false); trip(f, false); M<double> m; for (unsigned i = 0; i < n; i++) m[std::to_string(i)] = v[i]; trip(m, false); }
