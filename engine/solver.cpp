#include "solver.h"
#include <z3.h>
#include <chrono>
SolverStats g_ss; unsigned g_rlimit=50000000; unsigned g_qtimeout=60;
static Z3_context C; static Z3_solver S_bv, S_fp; static std::vector<Z3_ast> keep; static Z3_ast bv1,bv0;
static bool g_err=false;
static void onerr(Z3_context c, Z3_error_code e){ fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(c,e)); g_err=true; }
void solverInit(){
  Z3_config cfg=Z3_mk_config(); Z3_set_param_value(cfg,"model","true"); C=Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(C,onerr);
  S_bv=Z3_mk_solver_for_logic(C,Z3_mk_string_symbol(C,"QF_BV")); Z3_solver_inc_ref(C,S_bv);
  S_fp=Z3_mk_solver_for_logic(C,Z3_mk_string_symbol(C,"QF_FPBV")); Z3_solver_inc_ref(C,S_fp);
  Z3_sort b1=Z3_mk_bv_sort(C,1); bv1=Z3_mk_unsigned_int64(C,1,b1); bv0=Z3_mk_unsigned_int64(C,0,b1);
}
static bool usesFP(E e){ static std::unordered_map<E,bool> memo; auto it=memo.find(e); if(it!=memo.end()) return it->second;
  bool r=e->op>=E_FADD||(e->a&&usesFP(e->a))||(e->b&&usesFP(e->b))||(e->c&&usesFP(e->c)); memo[e]=r; return r; }
static Z3_ast zx(E e);
static Z3_ast bvOf(E e){ Z3_ast z=zx(e); if(e->w==1) return Z3_mk_ite(C,z,bv1,bv0); return z; }
static Z3_ast mkK(u128 k,unsigned w){ Z3_sort s=Z3_mk_bv_sort(C,w); if(w<=64) return Z3_mk_unsigned_int64(C,(u64)k,s);
  Z3_ast hi=Z3_mk_unsigned_int64(C,(u64)(k>>64),Z3_mk_bv_sort(C,w-64)), lo=Z3_mk_unsigned_int64(C,(u64)k,Z3_mk_bv_sort(C,64)); return Z3_mk_concat(C,hi,lo); }
static Z3_sort fps(unsigned w){ return w==64? Z3_mk_fpa_sort_double(C): Z3_mk_fpa_sort_single(C); }
static Z3_ast tofp(E e){ return Z3_mk_fpa_to_fp_bv(C,bvOf(e),fps(e->w)); }
static Z3_ast tableRec(const Table*t, Z3_ast idx, int bit, size_t base){
  if(bit<0) return mkK(base<t->v.size()? t->v[base]:0,t->w);
  size_t half=(size_t)1<<bit;
  if(base+half>=t->v.size()) return tableRec(t,idx,bit-1,base);
  Z3_ast lo=tableRec(t,idx,bit-1,base), hi=tableRec(t,idx,bit-1,base+half);
  if(lo==hi) return lo;
  return Z3_mk_ite(C,Z3_mk_eq(C,Z3_mk_extract(C,bit,bit,idx),bv1),hi,lo); }
static Z3_ast zx(E e){
  if(e->z) return (Z3_ast)e->z;
  Z3_ast r=nullptr; bool bo=e->w==1;
  // nonlinear arithmetic over a single byte variable: tabulate it (exact for all 256 values)
  if((e->op==E_UDIV||e->op==E_SDIV||e->op==E_UREM||e->op==E_SREM||e->op==E_MUL)&&e->vs&&e->vs->v.size()==1){
    static std::unordered_map<E,const Table*> tabs; u32 v=e->vs->v[0]; const Table*&t=tabs[e]; if(!t) t=internTable(e->w,tabulate(e));
    r=tableRec(t,zx(mkVar(v)),7,0); if(bo) r=Z3_mk_eq(C,r,bv1); Z3_inc_ref(C,r); e->z=r; return r; }
  switch(e->op){
   case E_CONST: r= bo? (e->k? Z3_mk_true(C):Z3_mk_false(C)) : mkK(e->k,e->w); break;
   case E_VAR: { char n[32]; snprintf(n,32,"v%u",(unsigned)e->k); r=Z3_mk_const(C,Z3_mk_string_symbol(C,n),Z3_mk_bv_sort(C,8)); break; }
   case E_ADD: r=Z3_mk_bvadd(C,zx(e->a),zx(e->b)); break;
   case E_SUB: r=Z3_mk_bvsub(C,zx(e->a),zx(e->b)); break;
   case E_MUL: r=Z3_mk_bvmul(C,zx(e->a),zx(e->b)); break;
   case E_UDIV: r=Z3_mk_bvudiv(C,zx(e->a),zx(e->b)); break;
   case E_SDIV: r=Z3_mk_bvsdiv(C,zx(e->a),zx(e->b)); break;
   case E_UREM: r=Z3_mk_bvurem(C,zx(e->a),zx(e->b)); break;
   case E_SREM: r=Z3_mk_bvsrem(C,zx(e->a),zx(e->b)); break;
   case E_AND: if(bo){ Z3_ast x[2]={zx(e->a),zx(e->b)}; r=Z3_mk_and(C,2,x);} else r=Z3_mk_bvand(C,zx(e->a),zx(e->b)); break;
   case E_OR: if(bo){ Z3_ast x[2]={zx(e->a),zx(e->b)}; r=Z3_mk_or(C,2,x);} else r=Z3_mk_bvor(C,zx(e->a),zx(e->b)); break;
   case E_XOR: if(bo){ if(isC(e->b,1)) r=Z3_mk_not(C,zx(e->a)); else r=Z3_mk_xor(C,zx(e->a),zx(e->b)); } else r=Z3_mk_bvxor(C,zx(e->a),zx(e->b)); break;
   case E_SHL: r=Z3_mk_bvshl(C,zx(e->a),zx(e->b)); break;
   case E_LSHR: r=Z3_mk_bvlshr(C,zx(e->a),zx(e->b)); break;
   case E_ASHR: r=Z3_mk_bvashr(C,zx(e->a),zx(e->b)); break;
   case E_EQ: r=Z3_mk_eq(C,zx(e->a),zx(e->b)); break;
   case E_ULT: r=Z3_mk_bvult(C,zx(e->a),zx(e->b)); break;
   case E_ULE: r=Z3_mk_bvule(C,zx(e->a),zx(e->b)); break;
   case E_SLT: r=Z3_mk_bvslt(C,zx(e->a),zx(e->b)); break;
   case E_SLE: r=Z3_mk_bvsle(C,zx(e->a),zx(e->b)); break;
   case E_ITE: r=Z3_mk_ite(C,zx(e->a),zx(e->b),zx(e->c)); break;
   case E_ZEXT: r=Z3_mk_zero_ext(C,e->w-e->a->w,bvOf(e->a)); break;
   case E_SEXT: r=Z3_mk_sign_ext(C,e->w-e->a->w,bvOf(e->a)); break;
   case E_EXTRACT: { Z3_ast x=Z3_mk_extract(C,(unsigned)e->k+e->w-1,(unsigned)e->k,bvOf(e->a)); r= bo? Z3_mk_eq(C,x,bv1): x; break; }
   case E_CONCAT: r=Z3_mk_concat(C,bvOf(e->a),bvOf(e->b)); break;
   case E_TABLE: { const Table*t=(const Table*)(uintptr_t)e->k; int bits=0; while(((size_t)1<<bits)<t->v.size()) bits++; 
      Z3_ast idx=bvOf(e->a); if(bits>(int)e->a->w) bits=e->a->w; r=tableRec(t,idx,bits-1,0); if(bo){ r=Z3_mk_eq(C,r,bv1);} break; }
   case E_FADD: r=Z3_mk_fpa_to_ieee_bv(C,Z3_mk_fpa_add(C,Z3_mk_fpa_rne(C),tofp(e->a),tofp(e->b))); break;
   case E_FSUB: r=Z3_mk_fpa_to_ieee_bv(C,Z3_mk_fpa_sub(C,Z3_mk_fpa_rne(C),tofp(e->a),tofp(e->b))); break;
   case E_FMUL: r=Z3_mk_fpa_to_ieee_bv(C,Z3_mk_fpa_mul(C,Z3_mk_fpa_rne(C),tofp(e->a),tofp(e->b))); break;
   case E_FDIV: r=Z3_mk_fpa_to_ieee_bv(C,Z3_mk_fpa_div(C,Z3_mk_fpa_rne(C),tofp(e->a),tofp(e->b))); break;
   case E_FCMP: { Z3_ast a=tofp(e->a), b=tofp(e->b), o; Z3_ast nn[2]={Z3_mk_fpa_is_nan(C,a),Z3_mk_fpa_is_nan(C,b)}; Z3_ast un=Z3_mk_or(C,2,nn);
      switch(e->aux&7){ case 1: o=Z3_mk_fpa_eq(C,a,b); break; case 2: o=Z3_mk_fpa_gt(C,a,b); break; case 3: o=Z3_mk_fpa_geq(C,a,b); break; case 4: o=Z3_mk_fpa_lt(C,a,b); break; case 5: o=Z3_mk_fpa_leq(C,a,b); break;
        case 6: { Z3_ast q[2]={Z3_mk_not(C,un),Z3_mk_not(C,Z3_mk_fpa_eq(C,a,b))}; o=Z3_mk_and(C,2,q); break; } case 7: o=Z3_mk_not(C,un); break; default: o=Z3_mk_false(C); }
      // unordered predicates 8..14 are (uno or ordered-of(p&7))
      if(e->aux>=8){ Z3_ast q[2]={un,o}; r= e->aux==8? un : e->aux==15? Z3_mk_true(C) : Z3_mk_or(C,2,q); } else r=o; break; }
   case E_FCVT: r=Z3_mk_fpa_to_ieee_bv(C,Z3_mk_fpa_to_fp_float(C,Z3_mk_fpa_rne(C),tofp(e->a),fps(e->w))); break;
   case E_SI2F: r=Z3_mk_fpa_to_ieee_bv(C,Z3_mk_fpa_to_fp_signed(C,Z3_mk_fpa_rne(C),bvOf(e->a),fps(e->w))); break;
   case E_UI2F: r=Z3_mk_fpa_to_ieee_bv(C,Z3_mk_fpa_to_fp_unsigned(C,Z3_mk_fpa_rne(C),bvOf(e->a),fps(e->w))); break;
   case E_F2SI: r=Z3_mk_fpa_to_sbv(C,Z3_mk_fpa_rtz(C),tofp(e->a),e->w); break;
   case E_F2UI: r=Z3_mk_fpa_to_ubv(C,Z3_mk_fpa_rtz(C),tofp(e->a),e->w); break;
   case E_FFLOOR: { Z3_ast rm= e->aux==0? Z3_mk_fpa_rtn(C): e->aux==1? Z3_mk_fpa_rtp(C): e->aux==2? Z3_mk_fpa_rtz(C): e->aux==3? Z3_mk_fpa_rne(C): Z3_mk_fpa_rna(C);
      r=Z3_mk_fpa_to_ieee_bv(C,Z3_mk_fpa_round_to_integral(C,rm,tofp(e->a))); break; }
   default: abort(); }
  Z3_inc_ref(C,r); e->z=r; return r; }
Res solverCheck(const std::vector<E>& cs, const std::vector<u32>& vars, const Bits256* dom, std::vector<u8>& vals, bool big){
  auto t0=std::chrono::steady_clock::now();
  bool fp=false; for(E e:cs) fp|=usesFP(e);
  Z3_solver S=fp? S_fp:S_bv; Z3_solver_reset(C,S);
  { Z3_params p=Z3_mk_params(C); Z3_params_inc_ref(C,p); Z3_params_set_uint(C,p,Z3_mk_string_symbol(C,"rlimit"),big? g_rlimit*8u: g_rlimit); Z3_params_set_uint(C,p,Z3_mk_string_symbol(C,"timeout"),g_qtimeout*1000u*(big?4u:1u)); Z3_solver_set_params(C,S,p); Z3_params_dec_ref(C,p); }
  for(u32 v:vars){ Bits256 d=dom[v]; int n=d.count(); if(n==256) continue; Z3_ast x=zx(mkVar(v)); std::vector<Z3_ast> ors;
    for(int i=0;i<256;){ if(!d.get(i)){i++;continue;} int j=i; while(j+1<256&&d.get(j+1)) j++;
      if(i==j) ors.push_back(Z3_mk_eq(C,x,mkK(i,8))); else { std::vector<Z3_ast> q; if(i>0) q.push_back(Z3_mk_bvuge(C,x,mkK(i,8))); if(j<255) q.push_back(Z3_mk_bvule(C,x,mkK(j,8))); ors.push_back(q.size()==1? q[0]: Z3_mk_and(C,q.size(),q.data())); } i=j+1; }
    Z3_solver_assert(C,S,ors.size()==1? ors[0]: ors.empty()? Z3_mk_false(C): Z3_mk_or(C,ors.size(),ors.data())); }
  for(E e:cs) Z3_solver_assert(C,S,zx(e));
  g_err=false; Z3_lbool r=Z3_solver_check(C,S); Res res= r==Z3_L_TRUE? SAT: r==Z3_L_FALSE? UNSAT: UNKNOWN; if(g_err) res=UNKNOWN;
  if(res==SAT){ Z3_model m=Z3_solver_get_model(C,S); Z3_model_inc_ref(C,m); vals.resize(vars.size());
    for(size_t i=0;i<vars.size();i++){ Z3_ast out; unsigned x=0; if(Z3_model_eval(C,m,zx(mkVar(vars[i])),true,&out)) Z3_get_numeral_uint(C,out,&x); vals[i]=x; }
    Z3_model_dec_ref(C,m); }
  double dt=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();
  g_ss.queries++; g_ss.time+=dt; if(dt>g_ss.maxtime) g_ss.maxtime=dt; if(res==SAT) g_ss.sat++; else if(res==UNSAT) g_ss.unsat++; else g_ss.unknown++;
  return res; }
