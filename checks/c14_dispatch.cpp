// C14: every object key reaches exactly the member it names, for classes of any number of members.
#include "tree.hpp"
#define L10(X, p) X(p##0) X(p##1) X(p##2) X(p##3) X(p##4) X(p##5) X(p##6) X(p##7) X(p##8) X(p##9)
#define N1(X) X(value)
#define N2(X) X(first) X(firs)
#define N3(X) X(a) X(ab) X(abc)
#define N4(X) X(id) X(di) X(name) X(names)
#define N5(X) X(alpha) X(beta) X(gamma) X(delta) X(epsilon)
#define N7(X) X(x) X(y) X(z) X(xx) X(yy) X(zz) X(xyz)
#define N8(X) X(bool_value) X(string_value) X(string_list) X(optional_value) X(custom_value) X(bool_valu) X(string_lis) X(q)
#define N16(X) L10(X, item) X(item10) X(item11) X(item12) X(a1) X(b1) X(c1)
#define N33(X) L10(X, k) L10(X, m) L10(X, member_number_) X(r) X(s) X(t)
#define N65(X) L10(X, k) L10(X, m) L10(X, member_number_) L10(X, z9) L10(X, q_) L10(X, w__) X(u0) X(u1) X(u2) X(u3) X(u4)
#define N101(X) X(a_rather_long_member_name)
#define N102(X) X(transaction_identifier) X(transaction_identity)
#define N103(X) X(transaction_identifier) X(transaction_identifiez) X(transaction_identifies)
#define N105(X) X(member_with_long_name_1) X(member_with_long_name_2) X(member_with_long_name_) X(nember_with_long_name_1) X(member_with_lonG_name_1)
#define DECL(n) bool n = false;
#define PERS(n) & MEMBER_VARIABLE_DEFAULT(n)
#define NAME(n) #n,
#define PTR(n) &Self::n,
#define CLS(K) struct C##K { using Self = C##K; N##K(DECL) template <class A> constexpr auto persist(A& ar) { return ar N##K(PERS); } static const std::vector<std::string>& names_() { static const std::vector<std::string> v{ N##K(NAME) }; return v; } static const std::vector<bool Self::*>& ptrs_() { static const std::vector<bool Self::*> v{ N##K(PTR) }; return v; } };
CLS(1) CLS(2) CLS(3) CLS(4) CLS(5) CLS(7) CLS(8) CLS(16) CLS(33) CLS(65) CLS(101) CLS(102) CLS(103) CLS(105)
template <class C> static void one(const std::string& key, const char* tag) { auto& names = C::names_(); auto& ptrs = C::ptrs_(); size_t hit = names.size(); for (size_t i = 0; i < names.size(); i++) if (names[i] == key) hit = i; std::string s = "{" + quoted(key) + ":true}";
  { C c; bool r = parse(s, c); sym_assert(r == (hit < names.size()), "the parser accepts exactly the keys that name a member"); if (r) for (size_t i = 0; i < names.size(); i++) sym_assert(c.*ptrs[i] == (i == hit), "the parser sets exactly the member that the key names"); }
  { C c; bool r = deserialize(s, c); sym_assert(r, "the deserializer ignores keys that name no member"); for (size_t i = 0; i < names.size(); i++) sym_assert(c.*ptrs[i] == (i == hit), "the deserializer sets exactly the member that the key names"); }
  sym_print("hit", hit); sym_reach(hit < names.size() ? "member" : "no member"); (void)tag; }
#ifndef KL
#define KL 1
#endif
// every key of up to KL bytes
template <class C> static void any() { unsigned n = sym_choice(KL + 1, "len"); one<C>(sym_string(n, "key"), "any"); }
// a member name with one byte replaced, one byte appended, or cut off
template <class C> static void nearby() { auto& names = C::names_(); std::string k = names[sym_choice((unsigned)names.size(), "name")]; unsigned n = (unsigned)k.size(), how = sym_choice(n + 2, "how"); if (how == n + 1) k.resize(sym_choice(n, "cut")); else { char c; sym_bytes(&c, 1, "byte"); if (how == n) k += c; else k[how] = c; } one<C>(k, "near"); }
// all members at once, in declared or reversed order
template <class C> static void all() { auto& names = C::names_(); auto& ptrs = C::ptrs_(); C c; size_t n = ptrs.size(); if (n <= 8) for (auto p : ptrs) c.*p = sym_bool("value"); else { unsigned k = sym_choice((unsigned)n, "odd one out"); bool v = sym_bool("value"); for (size_t i = 0; i < n; i++) c.*ptrs[i] = (i == k) == v; } std::string s; sym_assert(write_to_string(c, s), "written");
  { C d; sym_assert(parse(s, d), "the parser accepts the written object"); for (auto p : ptrs) sym_assert(d.*p == c.*p, "the parser returns every member"); } { C d; sym_assert(deserialize(s, d), "the deserializer accepts the written object"); for (auto p : ptrs) sym_assert(d.*p == c.*p, "the deserializer returns every member"); }
  Document doc; sym_assert(serialize_to_document(c, doc) && doc.IsObject() && doc.MemberCount() == names.size(), "every member is stored once"); for (size_t i = 0; i < names.size(); i++) { auto it = doc.FindMember(names[i].c_str()); sym_assert(it != doc.MemberEnd() && it->value.IsBool() && it->value.GetBool() == c.*ptrs[i], "every member is stored under its name"); } sym_reach("all"); }
// a few members in any order
template <class C> static void pick() { auto& names = C::names_(); auto& ptrs = C::ptrs_(); unsigned n = (unsigned)names.size(), a = sym_choice(n, "a"), b = sym_choice(n, "b"); if (a == b) sym_end(); C c; std::string s = "{\"" + names[a] + "\":true,\"" + names[b] + "\":true}"; sym_assert(parse(s, c), "two members are accepted in any order"); for (size_t i = 0; i < n; i++) sym_assert(c.*ptrs[i] == (i == a || i == b), "exactly the two members are set"); sym_reach("pick"); }
#define H(N) HARNESS(h_any_##N) { any<C##N>(); } HARNESS(h_near_##N) { nearby<C##N>(); } HARNESS(h_all_##N) { all<C##N>(); } HARNESS(h_pick_##N) { pick<C##N>(); }
H(1) H(2) H(3) H(4) H(5) H(7) H(8) H(16) H(33) H(65) H(101) H(102) H(103) H(105)
