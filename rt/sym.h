// Harness API.  Under the engine these are intercepted; natively (replay) they are provided by rt/native.cpp.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void sym_bytes(void* p, size_t n, const char* name);   // fresh unconstrained bytes
void sym_assume(bool c);                               // prune
void sym_assert(bool c, const char* id);               // obligation
void sym_reach(const char* label);                     // vacuity witness
uint64_t sym_concretize(uint64_t v);                   // fork over every feasible value
int sym_engine(void);                                  // 1 under the engine, 0 natively
void sym_fail_new(uint64_t n);                         // the n-th operator new from here on throws std::bad_alloc (0: none)
uint64_t sym_live(void);                               // number of live heap objects
void sym_print(const char* t, uint64_t v);
[[noreturn]] void sym_end(void);                       // end of this path
}
template <class T> inline T sym_val(const char* name) { T v; sym_bytes(&v, sizeof v, name); return v; }
inline bool sym_bool(const char* name) { unsigned char c; sym_bytes(&c, 1, name); sym_assume(c < 2); return c != 0; }
// value in [0,n), one path per value
inline unsigned sym_choice(unsigned n, const char* name) { unsigned char c; sym_bytes(&c, 1, name); sym_assume(c < n); return (unsigned)sym_concretize(c); }
