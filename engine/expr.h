// Hash-consed bit-vector expression DAG with simplifying constructors.
// All symbolic inputs are byte variables (w=8).  Width-1 expressions are booleans.
// FP values are carried as their IEEE bit patterns; FP operations are explicit nodes.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <unordered_map>
#include <map>
#include <algorithm>
#include <cassert>
#include <cstdio>
#include <cstdlib>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int64_t i64; typedef unsigned __int128 u128; typedef __int128 i128;

enum EOp : u8 { E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR,
  E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT,
  E_TABLE, E_FADD, E_FSUB, E_FMUL, E_FDIV, E_FCMP, E_FCVT, E_SI2F, E_UI2F, E_F2SI, E_F2UI, E_FFLOOR, E_NOPS };

struct VarSet { std::vector<u32> v; u32 id; };

struct Bits256 { u64 b[4];
  bool get(unsigned i) const { return b[i>>6]>>(i&63)&1; }
  void set(unsigned i) { b[i>>6] |= 1ull<<(i&63); }
  bool none() const { return !(b[0]|b[1]|b[2]|b[3]); }
  int count() const { return __builtin_popcountll(b[0])+__builtin_popcountll(b[1])+__builtin_popcountll(b[2])+__builtin_popcountll(b[3]); }
  int first() const { for(int i=0;i<4;i++) if(b[i]) return i*64+__builtin_ctzll(b[i]); return -1; }
};
inline Bits256 band(const Bits256&x,const Bits256&y){ return {{x.b[0]&y.b[0],x.b[1]&y.b[1],x.b[2]&y.b[2],x.b[3]&y.b[3]}}; }
inline Bits256 bandn(const Bits256&x,const Bits256&y){ return {{x.b[0]&~y.b[0],x.b[1]&~y.b[1],x.b[2]&~y.b[2],x.b[3]&~y.b[3]}}; }

struct Table { u8 w; std::vector<u128> v; u32 id; };

struct Expr {
  u8 op, w; u16 aux; u32 id;
  const Expr *a, *b, *c;
  u128 k;                 // CONST value / VAR index / EXTRACT low bit / TABLE ptr
  const VarSet* vs; u8 ab, lz;  // active bits upper bound, known trailing zero bits
  mutable u64 ev_epoch; mutable u128 ev;
  mutable Bits256* tt;    // truth table for unary booleans
  mutable void* z;        // Z3_ast
  mutable u64 iv_epoch; mutable u64 iv_lo, iv_hi;
};
typedef const Expr* E;

inline u128 maskw(unsigned w){ return w>=128 ? ~(u128)0 : (((u128)1<<w)-1); }
inline i128 sx(u128 v, unsigned w){ if(w>=128) return (i128)v; u128 m=(u128)1<<(w-1); v&=maskw(w); return (i128)((v^m)-m); }

struct ExprKey { u8 op,w; u16 aux; E a,b,c; u128 k;
  bool operator==(const ExprKey&o) const { return op==o.op&&w==o.w&&aux==o.aux&&a==o.a&&b==o.b&&c==o.c&&k==o.k; } };
struct ExprKeyHash { size_t operator()(const ExprKey&x) const {
  u64 h=x.op*0x9E3779B97F4A7C15ull+x.w*0xC2B2AE3D27D4EB4Full+x.aux*77777;
  auto mix=[&](u64 v){ h^=v+0x9E3779B97F4A7C15ull+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdull; h^=h>>29; };
  mix((u64)x.a); mix((u64)x.b); mix((u64)x.c); mix((u64)x.k); mix((u64)(x.k>>64)); return h; } };

extern std::unordered_map<ExprKey, Expr*, ExprKeyHash> g_exprs;
extern std::vector<Expr*> g_exprlist;
E mkraw(u8 op,u8 w,u16 aux,E a,E b,E c,u128 k);
E mkConst(u128 v, unsigned w);
E mkVar(u32 i);
E mkBin(u8 op, E a, E b);
E mkIte(E c, E a, E b);
E mkZext(E a, unsigned w);
E mkSext(E a, unsigned w);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkNot(E a);
E mkTable(const Table* t, E idx);
E mkF(u8 op, u8 w, u16 aux, E a, E b);
const Table* internTable(u8 w, std::vector<u128>&& v);
u128 fpEval(u8 op,u8 w,u16 aux,unsigned aw,u128 a,u128 b);
u128 binEval(u8 op, unsigned w, u128 a, u128 b);
inline bool isC(E e){ return e->op==E_CONST; }
inline bool isC(E e,u128 v){ return e->op==E_CONST && e->k==v; }

struct Model { std::vector<u8> v; u64 id; int rc=1; };
extern u64 g_epoch;
u128 evalModel(E e, const Model* m);     // memoised per model id
const Bits256& truthTable(E e);          // unary booleans only
std::vector<u128> tabulate(E e);         // values of a unary expression
std::string exprStr(E e, int depth=6);
E mkOr1(E a,E b); E mkAnd1(E a,E b);
E mkEq(E a,E b);
E mkNe(E a,E b);
E mkUlt(E a,E b);
E mkUle(E a,E b);
E mkSlt(E a,E b);
E mkSle(E a,E b);
E mkAdd(E a,E b);
E mkSub(E a,E b);
E mkMul(E a,E b);
E mkAnd(E a,E b);
E mkOr(E a,E b);
E mkXor(E a,E b);
E mkShl(E a,E b);
E mkLshr(E a,E b);
E mkAshr(E a,E b);
// conservative unsigned interval using per-variable domains
struct Itv { u64 lo, hi; };
