// C08: objects: required, optional and defaulted members, member order, unknown keys, wrong member types.
#include "long.hpp"
template <class T> static void trip() { T c = Gen<T>::make(); std::string s, want = c.want(); sym_assert(write_to_string(c, s) && s == want, "each member is written once, in declared order, empty optionals omitted"); Document d; sym_assert(serialize_to_document(c, d) && document_to_string(d) == want, "each member is stored once, in declared order, empty optionals omitted");
  { T w{}; sym_assert(parse(s, w) && w == c, "the parser returns the written object"); } { T w{}; sym_assert(deserialize(s, w) && w == c, "the deserializer returns the written object"); } { T w{}; sym_assert(deserialize(d, w) && w == c, "the document returns the stored object"); } sym_reach("round trip"); }
template <class T> static void readTree(const JV& v) { T want{}; g_missing = g_unknown = 0; bool fits = ref(v, want); bool miss = g_missing, unk = g_unknown; std::string s = text(v);
  { T w{}; bool r = deserialize(s, w); sym_assert(r == (fits && !miss), "the deserializer accepts exactly the objects whose required members are present and whose members all fit"); if (r) sym_assert(eq(w, want), "the deserializer sets every present member, empties absent optionals and keeps absent defaults"); }
  { Document d; dtree(v, d); T w{}; bool r = deserialize(d, w); sym_assert(r == (fits && !miss), "a document is accepted exactly when its required members are present and its members all fit"); if (r) sym_assert(eq(w, want), "every present member of the document is set"); }
  { T w{}; bool r = parse(s, w); if (!fits || unk) sym_assert(!r, "the parser rejects an unknown key and a member that does not fit"); else if (!miss) { sym_assert(r, "the parser accepts a fitting object"); } if (r && !miss) sym_assert(eq(w, want), "the parser sets every present member and keeps the others"); }
  sym_print("fits", fits * 4 + miss * 2 + unk); sym_reach(!fits ? "misfit" : miss ? "missing" : unk ? "unknown" : "good"); }
template <class T> static void read() { Dev d{ 1 }; readTree<T>(shape<T>(d)); }
// a document read into an object that already has a value: present members are replaced, absent optionals emptied, absent defaults kept
template <class T> static void refillTree(const JV& v, const T& pre) { T want = pre; g_missing = g_unknown = 0; bool ok = ref(v, want); ok &= !g_missing; std::string s = text(v);
  { T w = pre; bool r = deserialize(s, w); sym_assert(r == ok, "whether a document fits does not depend on the object's previous value"); if (r) sym_assert(eq(w, want), "the deserializer replaces members present, empties absent optionals and keeps absent defaults"); }
  { T w = pre; Document d; dtree(v, d); bool r = deserialize(d, w); sym_assert(r == ok, "whether a document fits does not depend on the object's previous value (document)"); if (r) sym_assert(eq(w, want), "the document replaces members present, empties absent optionals and keeps absent defaults"); } sym_reach(ok ? "good" : "rejected"); }
template <class T> static void refill() { T pre = Gen<T>::make(); Dev d{ 1 }; refillTree<T>(shape<T>(d), pre); }
template <class T> static void large(const JV& v) { readTree<T>(v); T c{}; g_missing = 0; if (ref(v, c) && !g_missing) { std::string s; sym_assert(write_to_string(c, s), "a large object is written"); { T w{}; sym_assert(parse(s, w) && eq(c, w), "the parser returns the written large object"); } { T w{}; sym_assert(deserialize(s, w) && eq(c, w), "the deserializer returns the written large object"); } Document d; T w{}; sym_assert(serialize_to_document(c, d) && deserialize(d, w) && eq(c, w), "the document returns the large object"); } }
#define X(n, ...) HARNESS(h_long_##n) { large<__VA_ARGS__>(longTree<__VA_ARGS__>()); }
LONGO(X)
#undef X
// an object with one key changed in one byte, cut off or extended, in place of a member or besides it
struct L1 { bool a_rather_long_member_name = false; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a_rather_long_member_name); } bool operator==(const L1& o) const { return a_rather_long_member_name == o.a_rather_long_member_name; } bool ref(const JV& v) { return open(v, { "a_rather_long_member_name" }) && req(v, "a_rather_long_member_name", a_rather_long_member_name); } static V<S> names() { return { "a_rather_long_member_name" }; } };
struct L2 { bool identification_number = false; std::optional<bool> identification_letter; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(identification_number) & MEMBER_VARIABLE(identification_letter); } bool operator==(const L2& o) const { return identification_number == o.identification_number && eq(identification_letter, o.identification_letter); } bool ref(const JV& v) { return open(v, { "identification_number", "identification_letter" }) && (req(v, "identification_number", identification_number) & opt(v, "identification_letter", identification_letter)); } static V<S> names() { return { "identification_number", "identification_letter" }; } };
struct L3 { bool first_long_member = false; bool x = true; std::optional<bool> second_long_member; template <class A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(first_long_member) & MEMBER_VARIABLE_DEFAULT(x) & MEMBER_VARIABLE(second_long_member); } bool operator==(const L3& o) const { return first_long_member == o.first_long_member && x == o.x && eq(second_long_member, o.second_long_member); } bool ref(const JV& v) { return open(v, { "first_long_member", "x", "second_long_member" }) && (req(v, "first_long_member", first_long_member) & def(v, "x", x) & opt(v, "second_long_member", second_long_member)); } static V<S> names() { return { "first_long_member", "x", "second_long_member" }; } };
template <class T> static void keys() { auto ns = T::names(); unsigned n = (unsigned)ns.size(), w = sym_choice(n, "which"); S k = ns[w]; unsigned l = (unsigned)k.size(), how = sym_choice(l + 3, "how"); if (how == l + 2) k.resize(l - 1); else if (how == l + 1) k += k; else if (how == l) k += sym_letter(); else { char c = k[how]; sym_bytes(&k[how], 1, "byte"); sym_assume(k[how] >= 0x20); sym_assume(k[how] != c); }
  JV v; v.k = JV::Obj; for (unsigned i = 0; i < n; i++) { v.keys.push_back(ns[i]); v.a.push_back(leaf(JV::Bool)); } unsigned q = sym_choice(3, "place"); if (q == 0) v.keys[w] = k; else { unsigned p = q == 1 ? 0 : n; v.keys.insert(v.keys.begin() + p, k); v.a.insert(v.a.begin() + p, leaf(JV::Bool)); } if (k == "x") sym_end(); readTree<T>(v); }
HARNESS(h_keys_L1) { keys<L1>(); } HARNESS(h_keys_L2) { keys<L2>(); } HARNESS(h_keys_L3) { keys<L3>(); }
HARNESS(h_refill_vO2) { refillTree<V<O2>>(longTree<V<O2>>(), longValue<V<O2>>(5, 4)); } HARNESS(h_refill_mO2) { refillTree<M<O2>>(longTree<M<O2>>(), longValue<M<O2>>(5, 4)); }
#define H(n) HARNESS(h_trip_##n) { trip<n>(); } HARNESS(h_read_##n) { read<n>(); } HARNESS(h_refill_##n) { refill<n>(); }
H(O1) H(OD) H(OO) H(O2) H(O2o) H(O3) H(OPol) H(ODer) H(O5)
// sizes up to 300, strings and keys of up to 5000 bytes
#define X(n, l, ...) HARNESS_SW(h_sweep_##n) { large<__VA_ARGS__>(sweepTree<__VA_ARGS__>(l)); }
SWEEPO(X)
#undef X
#define X(n, k, ...) HARNESS_SW(h_len_##n) { large<__VA_ARGS__>(lenTree<__VA_ARGS__>(k)); }
LENO(X)
#undef X
