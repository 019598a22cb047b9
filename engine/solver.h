#pragma once
#include "expr.h"
enum Res { SAT, UNSAT, UNKNOWN };
struct SolverStats { u64 queries=0, sat=0, unsat=0, unknown=0, cachehits=0, badmodel=0, dom=0, audits=0; double time=0, maxtime=0; };
extern SolverStats g_ss;
extern unsigned g_rlimit;
void solverInit();
// conjunction of `cs`, plus domains of the listed variables.  On SAT fills vals for vars.
Res solverCheck(const std::vector<E>& cs, const std::vector<u32>& vars, const Bits256* dom, std::vector<u8>& vals, bool big=false);
