// jsym: exhaustive bounded symbolic execution of LLVM IR (clang output of the real C++ sources), deciding with Z3.
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <set>
#include <deque>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <signal.h>
#include <fstream>
#include <sstream>
#include <atomic>
using namespace llvm;

// ---------------------------------------------------------------- options / stats
static std::string optEntry="harness", optOut="", optReplayDir="";
static u64 optMaxInst=30000000; static double optTime=600; static int optJobs=1; static int optMaxViol=6; static bool optDebug=false; static bool optAuditAll=false;
struct Stats { u64 paths=0, killed=0, insts=0, forks=0, asserts=0, asserts_sym=0, asserts_solver=0, asserts_inconcl=0, uninit_branches=0, maxdepth=0, symloads=0; } g_st;
static std::set<std::string> g_reach, g_plabels; // g_plabels is never cleared: traces point into it
 static std::map<std::string,u64> g_assertIds; static std::set<std::string> g_errors;
static std::vector<std::string> g_samples;
struct Viol { std::string kind,msg,loc; std::vector<u8> inputs; std::string names; };
static std::vector<Viol> g_viols; static std::set<std::string> g_violKeys;
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double g_t0;

// ---------------------------------------------------------------- memory
struct Page { int rc; u32 cap; u8* st; const Expr** sym; u8 data[1]; };   // st: 0 concrete 1 uninit 2 symbolic
static Page* newPage(u32 cap, u8 fill){ Page*p=(Page*)malloc(sizeof(Page)+2*cap); p->rc=1;p->cap=cap;p->st=p->data+cap;p->sym=nullptr; memset(p->data,0,cap); memset(p->st,fill,cap); return p; }
static Page* clonePage(Page*o){ Page*p=(Page*)malloc(sizeof(Page)+2*o->cap); p->rc=1;p->cap=o->cap;p->st=p->data+o->cap; memcpy(p->data,o->data,2*o->cap); p->sym=nullptr;
  if(o->sym){ p->sym=(const Expr**)malloc(o->cap*sizeof(E)); memcpy(p->sym,o->sym,o->cap*sizeof(E)); } return p; }
static void decPage(Page*p){ if(p&&--p->rc==0){ free(p->sym); free(p);} }
enum { K_HEAP=1, K_STACK=2, K_GLOBAL=3, K_CONST=4 };
static const u32 PSZ=256;
struct Obj { int rc; u64 base; u32 size; u8 kind; u8 sub; bool zero; u32 np; const char* name; Page* pg[1]; };
static Obj* newObj(u64 base,u32 size,u8 kind,bool zero,const char*name){ u32 np= size<=PSZ? 1 : (size+PSZ-1)/PSZ; Obj*o=(Obj*)malloc(sizeof(Obj)+np*sizeof(Page*)); o->rc=1;o->base=base;o->size=size;o->kind=kind;o->sub=0;o->zero=zero;o->np=np;o->name=name; memset(o->pg,0,np*sizeof(Page*)); return o; }
static Obj* cloneObj(Obj*o){ Obj*n=(Obj*)malloc(sizeof(Obj)+o->np*sizeof(Page*)); memcpy((void*)n,o,sizeof(Obj)+(o->np-1)*sizeof(Page*)); n->rc=1; for(u32 i=0;i<n->np;i++) if(n->pg[i]) n->pg[i]->rc++; return n; }
static void decObj(Obj*o){ if(o&&--o->rc==0){ for(u32 i=0;i<o->np;i++) decPage(o->pg[i]); free(o);} }
struct Chunk { int rc; Obj* o[64]; u16 gen[64]; };
static void decChunk(Chunk*c){ if(--c->rc==0){ for(auto x:c->o) decObj(x); delete c; } }
static Chunk* cloneChunk(Chunk*c){ Chunk*n=new Chunk(*c); n->rc=1; for(auto x:n->o) if(x) x->rc++; return n; }
static const u64 OFFB=20, IDB=14, GENB=11, SLOTOFF=0x1000; static const u64 REGSH=OFFB+IDB+GENB;
enum { R_GLOBAL=1, R_HEAP=2, R_STACK=3, R_FUNC=6 };
struct Region { std::vector<Chunk*> ch; u32 n=0;
  Region(){} Region(const Region&o):ch(o.ch),n(o.n){ for(auto c:ch) c->rc++; } ~Region(){ for(auto c:ch) decChunk(c); }
  Region& operator=(const Region&)=delete;
  Chunk* wr(u32 ci){ Chunk*c=ch[ci]; if(c->rc>1){ c->rc--; c=ch[ci]=cloneChunk(c);} return c; } };

struct Val { u64 c; E e; };
static inline E toE(const Val&v,unsigned w){ return v.e? v.e : mkConst(v.c,w); }
static inline Val fromE(E e){ if(e->op==E_CONST&&e->w<=64) return {(u64)e->k,nullptr}; return {0,e}; }
static inline Val mkV(u64 c){ return {c,nullptr}; }

// ---------------------------------------------------------------- decoded code
enum DOp : u16 { D_NOP, D_MOV, D_BIN, D_ICMP, D_ZEXT, D_SEXT, D_TRUNC, D_SELECT, D_GEP, D_LOAD, D_STORE, D_ALLOCA, D_BR, D_CBR, D_SWITCH, D_RET, D_CALL, D_UNREACH, D_LPAD, D_RESUME, D_FBIN, D_FCMP, D_FCVT, D_I2F, D_F2I, D_FNEG, D_ATOMRMW, D_CMPXCHG, D_INTR, D_EXTELT, D_INSELT, D_UNSUP };
struct DEdge { u32 target; u32 c0, cn; u32 blk; };
struct Copy { int dst, src; };
struct GepIdx { int op; u64 scale; u8 w; };
struct DFunc;
struct DInst { u16 op; u8 w, w2; u16 aux; u16 aux2; int dst; int a,b,c; u32 x0,xn; u64 k; union { void* p; DFunc* fn; }; const Instruction* I; };
struct CaseT { u64 v; u32 edge; };
typedef void (*Builtin)(struct State&, const DInst*, const Val*, int);
struct DFunc { Function* F; std::string name, dem; bool decoded=false, executed=false; Builtin bi=nullptr; u32 nregs=0; int nparams=0; std::vector<DInst> code; std::vector<DEdge> edges; std::vector<Copy> copies; std::vector<GepIdx> geps; std::vector<CaseT> cases; std::vector<int> args; u64 addr; std::vector<u8> paramSlots; };
static std::vector<Val> g_cpool; static std::vector<u8> dummy;
static std::vector<DFunc*> g_funcs; static std::unordered_map<const Function*,DFunc*> g_fmap; static std::unordered_map<const GlobalVariable*,u64> g_gaddr;
static std::unordered_map<std::string,Builtin> g_builtins;
static LLVMContext g_ctx; static std::unique_ptr<Module> g_mod; static const DataLayout* DL;

struct Exc { u64 addr, tinfo, dtor; int handlers; };
struct Frame { DFunc* f; const DInst* ip; u32 base; u32 stackMark; u64 freeOnRet; u64 curExc; const DInst* callsite; u64 curTI; u64 va=0; };
struct State {
  std::vector<Frame> fr; std::vector<Val> regs; Region rg[4]; // index by region id
  std::vector<E> multi; std::vector<Bits256> dom; std::vector<u8> vflag; // vflag bit0: in multi, bit1: uninit
  Model* model; u32 nvars=0; std::vector<u32> inputs; std::string names; // inputs: var ids in sym_bytes order
  std::vector<std::pair<const std::string*,Val>> trace; std::vector<Exc> caught; std::vector<Exc> inflight; std::map<u64,Exc> pinned; u64 ninst=0; bool alive=true; u32 depth=0; u64 lastAlloc=0; u64 failNew=0;
  State(){ model=new Model; model->id=0; }
  State(const State&o):fr(o.fr),regs(o.regs),rg{o.rg[0],o.rg[1],o.rg[2],o.rg[3]},multi(o.multi),dom(o.dom),vflag(o.vflag),model(o.model),nvars(o.nvars),inputs(o.inputs),names(o.names),trace(o.trace),caught(o.caught),inflight(o.inflight),pinned(o.pinned),ninst(o.ninst),alive(o.alive),depth(o.depth),failNew(o.failNew){ model->rc++; }
  ~State(){ if(--model->rc==0) delete model; }
};
static u64 g_modelId=0;
static void setModel(State&s, Model* m){ if(--s.model->rc==0) delete s.model; s.model=m; }
static Model* cloneModel(const Model*m){ Model*n=new Model; n->v=m->v; n->id=++g_modelId; return n; }
static std::deque<State*> g_work;

[[noreturn]] static void fatal(const std::string& m){ fprintf(stderr,"jsym fatal: %s\n",m.c_str()); fflush(stderr); _exit(3); }
static std::string locOf(const Instruction* I){ if(!I) return "?"; std::string r=demangle(I->getFunction()->getName().str()); if(auto&d=I->getDebugLoc()){ auto*s=cast<DIScope>(d.getScope()); r=s->getFilename().str()+":"+std::to_string(d.getLine())+" in "+r; } return r; }
static std::string backtrace(State&s){ std::string r; int n=0; for(int i=(int)s.fr.size()-1;i>=0&&n<14;i--,n++){ std::string l=locOf(s.fr[i].ip->I); if(l.size()>200) l=l.substr(0,200); r+="  #"+std::to_string(n)+" "+l+"\n"; } return r; }
struct PathEnd {};
static void violation(State&s,const std::string&kind,const std::string&msg,const Model*m){
  std::string loc=locOf(s.fr.empty()?nullptr:s.fr.back().ip->I); std::string key=kind+"|"+msg.substr(0,60)+(kind=="assert"? "" : "|"+loc);
  g_st.killed++;
  if(g_violKeys.count(key)) return; g_violKeys.insert(key);
  Viol v; v.kind=kind; v.msg=msg; v.loc=backtrace(s); for(u32 i:s.inputs) v.inputs.push_back(i<m->v.size()? m->v[i]:0); v.names=s.names; g_viols.push_back(v);
  if(optDebug) fprintf(stderr,"VIOL %s %s\n%s",kind.c_str(),msg.c_str(),v.loc.c_str());
}
[[noreturn]] static void kill(State&s){ s.alive=false; throw PathEnd(); }
[[noreturn]] static void violKill(State&s,const std::string&kind,const std::string&msg){ violation(s,kind,msg,s.model); kill(s); }
[[noreturn]] static void unsupported(State&s,const std::string&m){ std::string l=m+" @ "+locOf(s.fr.back().ip->I); g_errors.insert(l); if(optDebug) fprintf(stderr,"UNSUP %s\n%s",l.c_str(),backtrace(s).c_str()); kill(s); }

// ---------------------------------------------------------------- constraints
static std::unordered_map<u64,std::pair<Res,std::vector<u8>>> g_qcache;
static Bits256 FULL={{~0ull,~0ull,~0ull,~0ull}};
static u32 newVar(State&s,bool uninit){ u32 v=s.nvars++; if(s.dom.size()<s.nvars){ s.dom.resize(s.nvars,FULL); s.vflag.resize(s.nvars,0);} s.dom[v]=FULL; s.vflag[v]=uninit?2:0;
  if(s.model->v.size()<s.nvars){ if(s.model->rc>1||true){ Model*m=cloneModel(s.model); m->v.resize(std::max<size_t>(s.nvars,64),0); setModel(s,m);} } return v; }
// slice of multi-variable constraints connected to e's variables
static void slice(State&s,E e,std::vector<E>&cs,std::vector<u32>&vars){
  static std::vector<u8> mark; mark.assign(s.nvars,0); std::vector<u32> q; for(u32 v:e->vs->v){ mark[v]=1; q.push_back(v);} 
  static std::vector<u8> used; used.assign(s.multi.size(),0); bool ch=true;
  while(ch){ ch=false; for(size_t i=0;i<s.multi.size();i++) if(!used[i]){ bool hit=false; for(u32 v:s.multi[i]->vs->v) if(mark[v]){hit=true;break;} if(hit){ used[i]=1; ch=true; cs.push_back(s.multi[i]); for(u32 v:s.multi[i]->vs->v) if(!mark[v]){mark[v]=1;q.push_back(v);} } } }
  vars=q; std::sort(vars.begin(),vars.end()); }
static u64 mixh(u64 h,u64 v){ h^=v+0x9E3779B97F4A7C15ull+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdull; return h^(h>>31); }
static Res query(State&s,E cond,std::vector<u32>&vars,std::vector<u8>&vals,bool big=false){
  std::vector<E> cs; slice(s,cond,cs,vars);
  std::vector<u32> ids; for(E e:cs) ids.push_back(e->id); std::sort(ids.begin(),ids.end());
  u64 h=1469598103934665603ull; for(u32 i:ids) h=mixh(h,i); h=mixh(h,0xabcdef); h=mixh(h,cond->id); for(u32 v:vars){ h=mixh(h,v); for(u64 b:s.dom[v].b) h=mixh(h,b);} 
  auto it=g_qcache.find(h); if(it!=g_qcache.end()){ g_ss.cachehits++; vals=it->second.second; return it->second.first; }
  cs.push_back(cond); Res r=solverCheck(cs,vars,s.dom.data(),vals,big);
  if(r==SAT){ // validate the model with our own evaluator (guards the Expr->Z3 translation)
    Model m; m.v=s.model->v; if(m.v.size()<s.nvars) m.v.resize(s.nvars); m.id=++g_modelId; for(size_t i=0;i<vars.size();i++) m.v[vars[i]]=vals[i]; bool ok=true; for(E e:cs) if(!evalModel(e,&m)) ok=false; if(!ok){ g_ss.badmodel++; r=UNKNOWN; if(optDebug) for(E e:cs) if(!evalModel(e,&m)) fprintf(stderr,"badmodel: %s\n",exprStr(e,9).c_str()); } }
  if(g_qcache.size()>400000) g_qcache.clear();
  g_qcache.emplace(h,std::make_pair(r,vals)); return r; }
static bool isUnary(E e){ return e->vs->v.size()==1; }
// conservative interval (unsigned) using domains; only for w<=64
static u64 g_ivEpoch=0;
static Itv itv(State&s,E e){
  u64 m= e->w>=64? ~0ull : ((1ull<<e->w)-1);
  if(e->op==E_CONST) return {(u64)e->k,(u64)e->k};
  if(e->iv_epoch==g_ivEpoch) return {e->iv_lo,e->iv_hi};
  Itv r={0,m}; if(e->ab<64) r.hi=std::min<u64>(r.hi,(1ull<<e->ab)-1);
  switch(e->op){
   case E_VAR: { const Bits256&d=s.dom[(u32)e->k]; int lo=d.first(); int hi=255; while(hi>=0&&!d.get(hi)) hi--; r={(u64)lo,(u64)hi}; break; }
   case E_ZEXT: r=itv(s,e->a); break;
   case E_CONCAT: if(e->w<=64){ Itv x=itv(s,e->a), y=itv(s,e->b); r={(x.lo<<e->b->w)|y.lo,(x.hi<<e->b->w)|y.hi}; } break;
   case E_ADD: if(e->w<=64){ Itv x=itv(s,e->a), y=itv(s,e->b); u128 lo=(u128)x.lo+y.lo, hi=(u128)x.hi+y.hi; if(hi<=m) r={(u64)lo,(u64)hi}; else if(lo>m) r={(u64)lo&m,(u64)hi&m}; } break;
   case E_SUB: if(e->w<=64){ Itv x=itv(s,e->a), y=itv(s,e->b); if(x.lo>=y.hi) r={x.lo-y.hi,x.hi-y.lo}; } break;
   case E_MUL: if(e->w<=64){ Itv x=itv(s,e->a), y=itv(s,e->b); u128 hi=(u128)x.hi*y.hi; if(hi<=m) r={x.lo*y.lo,(u64)hi}; } break;
   case E_UDIV: if(e->w<=64){ Itv x=itv(s,e->a), y=itv(s,e->b); if(y.lo>0) r={x.lo/y.hi,x.hi/y.lo}; } break;
   case E_UREM: if(e->w<=64){ Itv x=itv(s,e->a), y=itv(s,e->b); if(y.lo>0){ if(x.hi<y.lo) r=x; else r={0,std::min(x.hi,y.hi-1)}; } } break;
   case E_AND: if(e->w<=64){ Itv x=itv(s,e->a), y=itv(s,e->b); r={0,std::min(x.hi,y.hi)}; } break;
   case E_ITE: if(e->w<=64&&e->w>1){ Itv x=itv(s,e->b), y=itv(s,e->c); r={std::min(x.lo,y.lo),std::max(x.hi,y.hi)}; } break;
   case E_EXTRACT: if(e->a->w<=64){ Itv x=itv(s,e->a); if(e->k==0&&x.hi<=m) r=x; else if(e->k>0&&(x.hi>>(unsigned)e->k)<=m) r={x.lo>>(unsigned)e->k,x.hi>>(unsigned)e->k}; } break;
   case E_TABLE: { const Table*t=(const Table*)(uintptr_t)e->k; if(e->w<=64&&e->a->w<=64){ Itv x; if(e->a->op==E_VAR){ const Bits256&d=s.dom[(u32)e->a->k]; u64 lo=~0ull,hi=0; for(int i=0;i<256;i++) if(d.get(i)){ u64 v= i<(int)t->v.size()? (u64)t->v[i]:0; lo=std::min(lo,v); hi=std::max(hi,v);} r={lo,hi}; }
      else { x=itv(s,e->a); u64 lo=~0ull,hi=0; for(u64 i=x.lo;i<=x.hi&&i<t->v.size();i++){ u64 v=(u64)t->v[i]; lo=std::min(lo,v); hi=std::max(hi,v);} if(x.hi>=t->v.size()) lo=0; r={lo,hi}; } } break; }
   default: break; }
  e->iv_epoch=g_ivEpoch; e->iv_lo=r.lo; e->iv_hi=r.hi; return r; }
// returns 1 definitely true, 0 definitely false, -1 unknown (interval / domain reasoning; sound, incomplete)
static int itvDec(State&s,E c){
  if(isC(c)) return c->k?1:0;
  if(c->w==1){
    if(c->op==E_XOR&&isC(c->b,1)){ int r=itvDec(s,c->a); return r<0? -1: !r; }
    if(isUnary(c)){ u32 v=c->vs->v[0]; const Bits256&t=truthTable(c); if(band(s.dom[v],t).none()) return 0; if(bandn(s.dom[v],t).none()) return 1; return -1; }
    if(c->op==E_AND){ int a=itvDec(s,c->a); if(a==0) return 0; int b=itvDec(s,c->b); if(b==0) return 0; return a==1&&b==1? 1: -1; }
    if(c->op==E_OR){ int a=itvDec(s,c->a); if(a==1) return 1; int b=itvDec(s,c->b); if(b==1) return 1; return a==0&&b==0? 0: -1; }
  }
  int r=-1;
  if((c->op==E_ULT||c->op==E_ULE||c->op==E_EQ)&&c->a->w<=64){ Itv x=itv(s,c->a), y=itv(s,c->b);
    if(c->op==E_ULT){ if(x.hi<y.lo) r=1; else if(x.lo>=y.hi) r=0; } else if(c->op==E_ULE){ if(x.hi<=y.lo) r=1; else if(x.lo>y.hi) r=0; } else { if(x.hi<y.lo||y.hi<x.lo) r=0; else if(x.lo==x.hi&&y.lo==y.hi&&x.lo==y.lo) r=1; } }
  if(c->op==E_EXTRACT&&c->w==1&&c->a->w<=64){ Itv x=itv(s,c->a); if((x.lo>>(unsigned)c->k)==(x.hi>>(unsigned)c->k)) return (x.lo>>(unsigned)c->k)&1; }
  if((c->op==E_SLT||c->op==E_SLE)&&c->a->w<=64){ Itv x=itv(s,c->a), y=itv(s,c->b); u64 h=1ull<<(c->a->w-1);
    if((x.lo<h)==(x.hi<h)&&(y.lo<h)==(y.hi<h)){ i64 xl=(i64)sx(x.lo,c->a->w),xh=(i64)sx(x.hi,c->a->w),yl=(i64)sx(y.lo,c->a->w),yh=(i64)sx(y.hi,c->a->w);
      if(c->op==E_SLT){ if(xh<yl) r=1; else if(xl>=yh) r=0; } else { if(xh<=yl) r=1; else if(xl>yh) r=0; } } }
  return r; }
static int itvDecide(State&s,E c){ g_ivEpoch++; return itvDec(s,c); }
static bool hasUninit(State&s,E e){ for(u32 v:e->vs->v) if(s.vflag[v]&2) return true; return false; }
static u64 g_audit=0;
// Is cond feasible under the path condition?  If yes and newModel given, a satisfying model is produced.
static bool feasible(State&s,E cond,Model** out){
  if(isC(cond)){ if(cond->k&&out){ *out=s.model; s.model->rc++; } return cond->k; }
  if(evalModel(cond,s.model)){ if(out){ *out=s.model; s.model->rc++; } return true; }
  if(isUnary(cond)){ u32 v=cond->vs->v[0]; Bits256 d=band(s.dom[v],truthTable(cond)); g_ss.dom++;
    if(optAuditAll||(++g_audit%997)==0){ std::vector<u32> vars{v}; std::vector<u8> vals; std::vector<E> cs{cond}; Res r=solverCheck(cs,vars,s.dom.data(),vals); g_ss.audits++; if(r!=UNKNOWN&&(r==SAT)==d.none()) fatal("audit: domain decision disagrees with Z3"); }
    if(d.none()) return false;
    if(!(s.vflag[v]&1)){ if(out){ Model*m=cloneModel(s.model); m->v[v]=d.first(); *out=m; } return true; } }
  else { int r=itvDecide(s,cond); if(r>=0) g_ss.dom++; if(r>=0&&(optAuditAll||(++g_audit%499)==0)){ std::vector<u32> vars; std::vector<u8> vals; std::vector<E> cs; slice(s,cond,cs,vars); cs.push_back(cond); Res q=solverCheck(cs,vars,s.dom.data(),vals); g_ss.audits++; if(q!=UNKNOWN&&(q==SAT)!=(r==1)) fatal("audit: interval decision disagrees with Z3"); } if(r==0) return false; }
  std::vector<u32> vars; std::vector<u8> vals; double tq=now(); Res r=query(s,cond,vars,vals); if(optDebug&&now()-tq>0.02) fprintf(stderr,"slow %.3f r=%d %s @%s\n",now()-tq,r,exprStr(cond,7).c_str(),locOf(s.fr.back().ip->I).c_str());
  if(r==UNSAT) return false;
  if(r==UNKNOWN){ g_errors.insert("solver unknown on path feasibility @ "+locOf(s.fr.empty()?nullptr:s.fr.back().ip->I)); if(out){ *out=s.model; s.model->rc++; } return false; }
  if(out){ Model*m=cloneModel(s.model); if(m->v.size()<s.nvars) m->v.resize(s.nvars); for(size_t i=0;i<vars.size();i++) m->v[vars[i]]=vals[i]; *out=m; }
  return true; }
// add a constraint already known satisfiable by s.model
static void addC(State&s,E cond){
  if(isC(cond)) return;
  if(cond->op==E_AND&&cond->w==1){ addC(s,cond->a); addC(s,cond->b); return; }
  if(isUnary(cond)){ u32 v=cond->vs->v[0]; s.dom[v]=band(s.dom[v],truthTable(cond)); return; }
  for(E e:s.multi) if(e==cond) return;
  s.multi.push_back(cond); for(u32 v:cond->vs->v) s.vflag[v]|=1; }
static State* forkState(State&s){ g_st.forks++; State*n=new State(s); n->depth=s.depth+1; if(n->depth>g_st.maxdepth) g_st.maxdepth=n->depth; return n; }
// branch on cond; returns direction taken by s; pushes other side (with ip set by caller via callback)
static u64 concretize(State&s,const Val&v,unsigned w){
  if(!v.e) return v.c;
  E e=v.e; u128 x=evalModel(e,s.model); E eq=mkEq(e,mkConst(x,w)); Model*m=nullptr;
  E ne=mkNot(eq);
  if(feasible(s,ne,&m)){ State*n=forkState(s); setModel(*n,m); addC(*n,ne); g_work.push_back(n); }
  addC(s,eq); return (u64)x; }
static bool concretizeBool(State&s,E c){ // re-executes the current instruction for the other side
  if(isC(c)) return c->k; bool cur=evalModel(c,s.model); E side=cur? c: mkNot(c), other=cur? mkNot(c): c; Model*m=nullptr;
  if(feasible(s,other,&m)){ State*n=forkState(s); setModel(*n,m); addC(*n,other); g_work.push_back(n); }
  addC(s,side); return cur; }

// ---------------------------------------------------------------- memory access
static inline unsigned regOf(u64 a){ return a>>REGSH; }
static inline u32 idOf(u64 a){ return (a>>OFFB)&((1u<<IDB)-1); }
static inline u32 genOf(u64 a){ return (a>>(OFFB+IDB))&((1u<<GENB)-1); }
static Obj* findObj(State&s,u64 a){ unsigned r=regOf(a); if(r<1||r>3) return nullptr; u32 id=idOf(a); Region&R=s.rg[r]; if(id>=R.n) return nullptr; Obj*o=R.ch[id>>6]->o[id&63]; if(!o) return nullptr; if(((a^o->base)>>OFFB)!=0) return nullptr; return o; }
static Obj* wrObj(State&s,u64 a){ Region&R=s.rg[regOf(a)]; u32 id=idOf(a); Chunk*c=R.wr(id>>6); Obj*&o=c->o[id&63]; if(o->rc>1){ o->rc--; o=cloneObj(o);} return o; }
static u64 allocObj(State&s,unsigned reg,u64 size,u8 kind,bool zero,const char*name){
  Region&R=s.rg[reg]; u32 id=R.n; if(id>=(1u<<IDB)-1) unsupported(s,"object table exhausted"); if(size>(1u<<OFFB)-2*SLOTOFF) unsupported(s,"allocation too large: "+std::to_string(size));
  if((id>>6)>=R.ch.size()){ Chunk*c=new Chunk; c->rc=1; memset(c->o,0,sizeof c->o); memset(c->gen,0,sizeof c->gen); R.ch.push_back(c);} 
  R.n++; Chunk*c=R.wr(id>>6); u32 g=c->gen[id&63]=(c->gen[id&63]+1)&((1u<<GENB)-1);
  u64 base=((u64)reg<<REGSH)|((u64)g<<(OFFB+IDB))|((u64)id<<OFFB)|SLOTOFF; c->o[id&63]=newObj(base,size,kind,zero,name); return base; }
static void dropObj(State&s,u64 a){ Region&R=s.rg[regOf(a)]; u32 id=idOf(a); Chunk*c=R.wr(id>>6); decObj(c->o[id&63]); c->o[id&63]=nullptr; }
static u64 heapAlloc(State&s,u64 size,u8 sub){ if(s.rg[R_HEAP].n>=(1u<<IDB)-2){ /* reuse */ Region&R=s.rg[R_HEAP]; for(u32 i=0;i<R.n;i++) if(!R.ch[i>>6]->o[i&63]){ u32 sv=R.n; R.n=i; u64 b=allocObj(s,R_HEAP,size,K_HEAP,false,"heap"); R.n=sv; wrObj(s,b)->sub=sub; return b; } }
  u64 b=allocObj(s,R_HEAP,size,K_HEAP,false,"heap"); wrObj(s,b)->sub=sub; return b; }
static Page* rdPage(Obj*o,u32 i){ return o->pg[i]; }
static Page* wrPage(Obj*o,u32 i){ Page*p=o->pg[i]; if(!p){ u32 cap= o->np==1? (o->size+7)&~7u : PSZ; if(!cap) cap=8; p=o->pg[i]=newPage(cap,o->zero?0:1); return p; } if(p->rc>1){ p->rc--; p=o->pg[i]=clonePage(p);} return p; }
static inline void byteAt(Obj*o,u32 off,u8&st,u8&d,E&e){ u32 pi=o->np==1?0:off/PSZ, po=o->np==1?off:off%PSZ; Page*p=o->pg[pi]; if(!p){ st=o->zero?0:1; d=0; e=nullptr; return; } st=p->st[po]; d=p->data[po]; e= st==2? p->sym[po]:nullptr; }
static void setByte(Obj*o,u32 off,u8 d,E e,u8 st){ u32 pi=o->np==1?0:off/PSZ, po=o->np==1?off:off%PSZ; Page*p=wrPage(o,pi); p->st[po]=st; p->data[po]=d; if(st==2){ if(!p->sym){ p->sym=(const Expr**)malloc(p->cap*sizeof(E)); memset(p->sym,0,p->cap*sizeof(E)); } p->sym[po]=e; } }
// materialise uninitialised byte as a fresh unconstrained variable
static E symByte(State&s,u64 base,u32 off){ Obj*o=findObj(s,base); u8 st,d; E e; byteAt(o,off,st,d,e); if(st==0) return mkConst(d,8); if(st==2) return e; u32 v=newVar(s,true); E x=mkVar(v); setByte(wrObj(s,base),off,0,x,2); return x; }
static Val loadAt(State&s,u64 base,u32 off,unsigned bytes,unsigned w){
  Obj*o=findObj(s,base); u32 pi=o->np==1?0:off/PSZ, po=o->np==1?off:off%PSZ;
  if(bytes<=8&&(o->np==1||po+bytes<=PSZ)){ Page*p=o->pg[pi]; if(p){ bool conc=true; for(unsigned i=0;i<bytes;i++) if(p->st[po+i]){conc=false;break;} if(conc){ u64 r=0; memcpy(&r,p->data+po,bytes); if(w<64) r&=(1ull<<w)-1; return mkV(r);} } else if(o->zero) return mkV(0); }
  E acc=nullptr; for(unsigned i=0;i<bytes;i++){ E b=symByte(s,base,off+i); acc= acc? mkConcat(b,acc): b; }
  if(acc->w!=w) acc=mkExtract(acc,0,w); else if(acc->op==E_EXTRACT) acc=mkExtract(acc->a,(unsigned)acc->k,w); return fromE(acc); }
static E memExtract(E e,unsigned lo,unsigned w){ if(e->w==w) return e; switch(e->op){ case E_CONST: case E_ZEXT: case E_SEXT: case E_CONCAT: case E_EXTRACT: return mkExtract(e,lo,w); default: return mkraw(E_EXTRACT,w,0,e,0,0,lo); } }
static void storeAt(State&s,u64 base,u32 off,unsigned bytes,unsigned w,const Val&v){
  Obj*o=wrObj(s,base); u32 pi=o->np==1?0:off/PSZ, po=o->np==1?off:off%PSZ;
  if(!v.e&&bytes<=8&&(o->np==1||po+bytes<=PSZ)){ Page*p=wrPage(o,pi); u64 x=v.c; if(w<64) x&=(1ull<<w)-1; memcpy(p->data+po,&x,bytes); memset(p->st+po,0,bytes); return; }
  E e=toE(v,w); if(w<bytes*8) e=mkZext(e,bytes*8);
  for(unsigned i=0;i<bytes;i++){ E b=memExtract(e,i*8,8); if(isC(b)) setByte(o,off+i,(u8)b->k,nullptr,0); else setByte(o,off+i,0,b,2); } }
static std::string memMsg(State&s,u64 a,u64 n,const char*what){ Obj*o=findObj(s,a); char b[256]; if(o) snprintf(b,256,"%s of %llu bytes at offset %lld of %s object of size %u (%s)",what,(unsigned long long)n,(long long)(a-o->base),o->kind==K_HEAP?"heap":o->kind==K_STACK?"stack":"global",o->size,o->name?o->name:""); else snprintf(b,256,"%s of %llu bytes at %s pointer",what,(unsigned long long)n, a<4096?"null":regOf(a)==R_HEAP?"dangling heap":regOf(a)==R_STACK?"dangling stack":"wild"); return b; }
static Obj* checkAcc(State&s,u64 a,u64 n,bool wr){ Obj*o=findObj(s,a); if(!o||a<o->base||a-o->base+n>o->size) violKill(s,"memory",memMsg(s,a,n,wr?"write":"read")); if(wr&&o->kind==K_CONST) violKill(s,"memory","write to constant object"); return o; }
static u64 evalUnaryAt(E e,u32 var,u8 val){ static std::vector<u8> buf; Model m; m.v.resize(var+1); m.v[var]=val; m.id=++g_modelId; return (u64)evalModel(e,&m); }
// resolve symbolic pointer to a single object (forking for the rest); returns base, constrains in-bounds
static Obj* resolveSym(State&s,E addr,u64 n,bool wr){
  u64 cur=(u64)evalModel(addr,s.model); Obj*o=findObj(s,cur);
  if(!o||cur<o->base||cur-o->base+n>o->size) violKill(s,"memory",memMsg(s,cur,n,wr?"write":"read")+" (symbolic address)");
  if(wr&&o->kind==K_CONST) violKill(s,"memory","write to constant object");
  E in=mkUle(mkSub(addr,mkConst(o->base,64)),mkConst(o->size-n,64)); Model*m=nullptr; E out=mkNot(in);
  if(feasible(s,out,&m)){ State*ns=forkState(s); setModel(*ns,m); addC(*ns,out); g_work.push_back(ns); }
  addC(s,in); return o; }
static Val loadSym(State&s,E addr,unsigned bytes,unsigned w){
  g_st.symloads++;
  Obj*o=resolveSym(s,addr,bytes,false); u64 base=o->base; E off=mkSub(addr,mkConst(base,64)); if(isC(off)) return loadAt(s,base,(u32)off->k,bytes,w);
  u32 maxoff=o->size-bytes;
  auto allConc=[&](u32 of){ for(unsigned i=0;i<bytes;i++){ u8 st,d; E e; byteAt(o,of+i,st,d,e); if(st) return false; } return true; };
  auto rd=[&](u32 of){ u128 r=0; for(unsigned i=0;i<bytes;i++){ u8 st,d; E e; byteAt(o,of+i,st,d,e); r|=(u128)d<<(8*i);} return r&maskw(w); };
  // stride form
  E x=off; u64 c=0, stride=1; if(x->op==E_ADD&&isC(x->b)){ c=(u64)x->b->k; x=x->a; }
  if(x->op==E_MUL&&isC(x->b)){ stride=(u64)x->b->k; x=x->a; } else if(x->op==E_CONCAT&&isC(x->b,0)){ stride=1ull<<x->b->w; x=x->a; } else if(x->op==E_ZEXT&&x->a->op==E_CONCAT&&isC(x->a->b,0)){ stride=1ull<<x->a->b->w; x=x->a->a; } else if(x->op==E_ZEXT&&x->a->op==E_MUL&&isC(x->a->b)&&x->a->ab<x->a->w){ stride=(u64)x->a->b->k; x=x->a->a; }
  if(isUnary(off)){ u32 v=off->vs->v[0]; std::map<u64,int> offs; for(int i=0;i<256;i++) if(s.dom[v].get(i)){ u64 of=evalUnaryAt(off,v,i); if(of<=maxoff) offs[of]++; }
    bool conc=true; for(auto&p:offs) conc&=allConc(p.first);
    if(conc){ std::vector<u128> t(256,0); for(int i=0;i<256;i++) if(s.dom[v].get(i)){ u64 of=evalUnaryAt(off,v,i); if(of<=maxoff) t[i]=rd(of); } return fromE(mkTable(internTable(w,std::move(t)),mkVar(v))); }
    if(offs.size()<=48){ E acc=nullptr; for(auto&p:offs){ E val=toE(loadAt(s,base,p.first,bytes,w),w); acc= acc? mkIte(mkEq(off,mkConst(p.first,64)),val,acc): val; } return fromE(acc); }
    u64 a=concretize(s,Val{0,addr},64); return loadAt(s,base,(u32)(a-base),bytes,w); }
  if(stride>1&&(i64)c>=0&&c<=maxoff&&(maxoff-c)/stride<=4096){ u64 cnt=(maxoff-c)/stride+1; bool conc=true; for(u64 i=0;i<cnt&&conc;i++) conc=allConc(c+i*stride);
    if(conc){ std::vector<u128> t; for(u64 i=0;i<cnt;i++) t.push_back(rd(c+i*stride)); unsigned nb=1; while((1ull<<nb)<cnt) nb++; E ix= x->w>nb? mkExtract(x,0,nb): x; return fromE(mkTable(internTable(w,std::move(t)),ix)); } }
  if(maxoff<=4096){ bool conc=true; for(u32 i=0;i<=maxoff&&conc;i++) conc=allConc(i); if(conc){ std::vector<u128> t; for(u32 i=0;i<=maxoff;i++) t.push_back(rd(i)); unsigned nb=1; while((1ull<<nb)<=maxoff) nb++; return fromE(mkTable(internTable(w,std::move(t)),mkExtract(off,0,nb))); } }
  u64 a=concretize(s,Val{0,addr},64); return loadAt(s,base,(u32)(a-base),bytes,w); }
static Val doLoad(State&s,const Val&p,u64 add,unsigned bytes,unsigned w){
  if(p.e) return loadSym(s,mkAdd(p.e,mkConst(add,64)),bytes,w);
  Obj*o=checkAcc(s,p.c+add,bytes,false); return loadAt(s,o->base,(u32)(p.c+add-o->base),bytes,w); }
static void doStore(State&s,const Val&p,u64 add,unsigned bytes,unsigned w,const Val&v){
  u64 a; if(p.e){ E ad=mkAdd(p.e,mkConst(add,64)); resolveSym(s,ad,bytes,true); a=concretize(s,Val{0,ad},64); } else a=p.c+add;
  Obj*o=checkAcc(s,a,bytes,true); storeAt(s,o->base,(u32)(a-o->base),bytes,w,v); }
static void copyMem(State&s,u64 d,u64 src,u64 n){ if(!n) return; Obj*so=checkAcc(s,src,n,false); u32 soff=src-so->base; Obj*dd=checkAcc(s,d,n,true); u32 doff=d-dd->base;
  if(!(d<src+n&&src<d+n)){ // non overlapping: direct
    Obj*o=wrObj(s,d); so=findObj(s,src); u64 i=0; while(i<n){ u32 sp=so->np==1?0:(soff+i)/PSZ, spo=so->np==1?soff+i:(soff+i)%PSZ, dp=o->np==1?0:(doff+i)/PSZ, dpo=o->np==1?doff+i:(doff+i)%PSZ; u64 l=n-i; if(so->np>1) l=std::min<u64>(l,PSZ-spo); if(o->np>1) l=std::min<u64>(l,PSZ-dpo);
      Page*P=so->pg[sp]; if(!P){ if(!(o->pg[dp]==nullptr&&o->zero==so->zero)){ Page*Q=wrPage(o,dp); memset(Q->st+dpo,so->zero?0:1,l); memset(Q->data+dpo,0,l);} }
      else { Page*Q=wrPage(o,dp); P=so->pg[sp]; memcpy(Q->data+dpo,P->data+spo,l); memcpy(Q->st+dpo,P->st+spo,l); if(P->sym){ bool any=false; for(u64 j=0;j<l;j++) any|=P->st[spo+j]==2; if(any){ if(!Q->sym){ Q->sym=(const Expr**)malloc(Q->cap*sizeof(E)); memset(Q->sym,0,Q->cap*sizeof(E)); } memcpy(Q->sym+dpo,P->sym+spo,l*sizeof(E)); } } }
      i+=l; } return; }
  struct B{u8 st,d;E e;}; std::vector<B> t(n); for(u64 i=0;i<n;i++) byteAt(so,soff+i,t[i].st,t[i].d,t[i].e);
  Obj*o=wrObj(s,d); for(u64 i=0;i<n;i++) setByte(o,doff+i,t[i].d,t[i].e,t[i].st); }
static void setMem(State&s,u64 d,const Val&v,u64 n){ if(!n) return; Obj*dd=checkAcc(s,d,n,true); u32 doff=d-dd->base; Obj*o=wrObj(s,d); if(v.e){ E b=mkExtract(v.e,0,8); for(u64 i=0;i<n;i++) setByte(o,doff+i,0,b,2);} else for(u64 i=0;i<n;i++) setByte(o,doff+i,(u8)v.c,nullptr,0); }
static std::string cstr(State&s,u64 a){ std::string r; for(;;){ Obj*o=checkAcc(s,a,1,false); u8 st,d; E e; byteAt(o,a-o->base,st,d,e); if(st) return r+"?"; if(!d) return r; r+=d; a++; if(r.size()>300) return r; } }
static u64 rd64(State&s,u64 a){ Obj*o=checkAcc(s,a,8,false); Val v=loadAt(s,o->base,a-o->base,8,64); if(v.e) unsupported(s,"symbolic pointer in runtime structure"); return v.c; }

// ---------------------------------------------------------------- decoding
static u32 slotsOf(Type*t){ if(auto*st=dyn_cast<StructType>(t)){ u32 n=0; for(auto*e:st->elements()) n+=slotsOf(e); return n; } if(auto*at=dyn_cast<ArrayType>(t)) return at->getNumElements()*slotsOf(at->getElementType()); if(auto*vt=dyn_cast<FixedVectorType>(t)) return vt->getNumElements(); if(t->isVoidTy()) return 0; return 1; }
static unsigned widthOf(Type*t){ if(t->isPointerTy()) return 64; if(t->isIntegerTy()) return t->getIntegerBitWidth(); if(t->isDoubleTy()) return 64; if(t->isFloatTy()) return 32; if(t->isVectorTy()) return widthOf(cast<FixedVectorType>(t)->getElementType()); return 0; }
struct Leaf { u64 off; unsigned w, bytes; };
static void leaves(Type*t,u64 off,std::vector<Leaf>&out){ if(auto*st=dyn_cast<StructType>(t)){ auto*L=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++) leaves(st->getElementType(i),off+L->getElementOffset(i),out); } else if(auto*at=dyn_cast<ArrayType>(t)){ u64 es=DL->getTypeAllocSize(at->getElementType()); for(unsigned i=0;i<at->getNumElements();i++) leaves(at->getElementType(),off+i*es,out); } else if(auto*vt=dyn_cast<FixedVectorType>(t)){ u64 es=DL->getTypeStoreSize(vt->getElementType()); for(unsigned i=0;i<vt->getNumElements();i++) leaves(vt->getElementType(),off+i*es,out); } else { unsigned w=widthOf(t); if(!w||w>128) fatal("unsupported type width"); out.push_back({off,w,(unsigned)DL->getTypeStoreSize(t)}); } }
static Val constScalar(const Constant*c);
static u64 constAddr(const Constant*c){ Val v=constScalar(c); if(v.e) fatal("symbolic const addr"); return v.c; }
static DFunc* getFunc(const Function*f);
static Val constScalar(const Constant*c){
  if(auto*ci=dyn_cast<ConstantInt>(c)){ if(ci->getBitWidth()<=64) return mkV(ci->getZExtValue()); const APInt&a=ci->getValue(); u128 v=a.getRawData()[0]|((u128)a.getRawData()[1]<<64); return {0,mkConst(v,a.getBitWidth())}; }
  if(auto*cf=dyn_cast<ConstantFP>(c)) return mkV(cf->getValueAPF().bitcastToAPInt().getZExtValue());
  if(isa<ConstantPointerNull>(c)) return mkV(0);
  if(isa<UndefValue>(c)){ unsigned w=widthOf(c->getType()); if(w>64) return {0,mkConst(0,w)}; return mkV(0); }
  if(isa<ConstantAggregateZero>(c)) return mkV(0);
  if(auto*gv=dyn_cast<GlobalVariable>(c)){ auto it=g_gaddr.find(gv); if(it==g_gaddr.end()) fatal("global addr "+gv->getName().str()); return mkV(it->second); }
  if(auto*f=dyn_cast<Function>(c)) return mkV(getFunc(f)->addr);
  if(auto*ga=dyn_cast<GlobalAlias>(c)) return constScalar(ga->getAliasee());
  if(auto*de=dyn_cast<DSOLocalEquivalent>(c)) return constScalar(de->getGlobalValue());
  if(auto*ce=dyn_cast<ConstantExpr>(c)){ unsigned w=widthOf(ce->getType()); u64 m= w>=64? ~0ull : (1ull<<w)-1;
    switch(ce->getOpcode()){ case Instruction::GetElementPtr: { APInt off(64,0); if(!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL,off)) fatal("const gep"); return mkV(constAddr(ce->getOperand(0))+off.getSExtValue()); }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt: case Instruction::AddrSpaceCast: return mkV(constScalar(ce->getOperand(0)).c&m);
      case Instruction::Sub: return mkV((constAddr(ce->getOperand(0))-constAddr(ce->getOperand(1)))&m); case Instruction::Add: return mkV((constAddr(ce->getOperand(0))+constAddr(ce->getOperand(1)))&m); case Instruction::Xor: return mkV((constAddr(ce->getOperand(0))^constAddr(ce->getOperand(1)))&m);
      case Instruction::ICmp: { u64 a=constAddr(ce->getOperand(0)),b=constAddr(ce->getOperand(1)); switch(ce->getPredicate()){ case CmpInst::ICMP_EQ: return mkV(a==b); case CmpInst::ICMP_NE: return mkV(a!=b); case CmpInst::ICMP_ULT: return mkV(a<b); default: fatal("const icmp"); } }
      default: fatal(std::string("const expr ")+ce->getOpcodeName()); } }
  std::string str; raw_string_ostream os(str); c->print(os); fatal("const "+os.str()); }
static void flattenConst(const Constant*c,std::vector<Val>&out){ Type*t=c->getType();
  if(isa<StructType>(t)||isa<ArrayType>(t)||isa<FixedVectorType>(t)){ unsigned n= isa<StructType>(t)? cast<StructType>(t)->getNumElements() : isa<ArrayType>(t)? cast<ArrayType>(t)->getNumElements() : cast<FixedVectorType>(t)->getNumElements(); for(unsigned i=0;i<n;i++) flattenConst(c->getAggregateElement(i),out); return; }
  out.push_back(constScalar(c)); }
struct Decoder {
  DFunc&D; Function&F; std::unordered_map<const Value*,int> reg; int next=0; std::unordered_map<const Constant*,int> cmap; std::unordered_map<const BasicBlock*,u32> bstart; std::vector<std::pair<u32,const BasicBlock*>> fix; std::unordered_map<const BasicBlock*,u32> bidx;
  Decoder(DFunc&d):D(d),F(*d.F){}
  int op(const Value*v){ auto it=reg.find(v); if(it!=reg.end()) return it->second; if(auto*c=dyn_cast<Constant>(v)){ auto ci=cmap.find(c); if(ci!=cmap.end()) return ci->second; std::vector<Val> vs; flattenConst(c,vs); int idx=g_cpool.size(); for(auto&x:vs) g_cpool.push_back(x); if(vs.empty()) g_cpool.push_back(mkV(0)); // contiguous
      // constants are addressed as ~(index): consecutive slots are ~(idx+i)
      cmap[c]=~idx; return ~idx; }
    if(isa<MetadataAsValue>(v)||isa<BasicBlock>(v)||isa<InlineAsm>(v)) return ~0; std::string s; raw_string_ostream os(s); v->print(os); fatal("operand "+os.str()); }
  static int at(int o,int i){ return o>=0? o+i : ~(~o+i); }
  DInst& emit(u16 o,const Instruction*I){ DInst d; memset(&d,0,sizeof d); d.op=o; d.I=I; d.dst=-1; D.code.push_back(d); return D.code.back(); }
  u32 edge(const BasicBlock*from,const BasicBlock*to){ DEdge e; e.c0=D.copies.size(); for(auto&phi:to->phis()){ int d=reg[&phi], s=op(phi.getIncomingValueForBlock(from)); u32 n=slotsOf(phi.getType()); for(u32 i=0;i<n;i++) D.copies.push_back({d+(int)i,at(s,i)}); } e.cn=D.copies.size()-e.c0; e.target=0; D.edges.push_back(e); fix.push_back({(u32)D.edges.size()-1,to}); return D.edges.size()-1; }
  void run(){
    for(auto&a:F.args()){ reg[&a]=next; u32 n=slotsOf(a.getType()); next+=n; }
    D.nparams=next;
    for(auto&B:F) for(auto&I:B) if(!I.getType()->isVoidTy()){ reg[&I]=next; next+=std::max(1u,slotsOf(I.getType())); }
    D.nregs=next;
    for(auto&B:F){ bstart[&B]=D.code.size(); for(auto&I:B) inst(I); }
    for(auto&p:fix) D.edges[p.first].target=bstart[p.second];
  }
  void bin(const Instruction&I,u8 eop){ Type*t=I.getType(); u32 n=slotsOf(t); int a=op(I.getOperand(0)),b=op(I.getOperand(1)); for(u32 i=0;i<n;i++){ DInst&d=emit(D_BIN,&I); d.aux=eop; d.w=widthOf(t); d.dst=reg[&I]+i; d.a=at(a,i); d.b=at(b,i);} }
  void mov(const Instruction&I,int dst,int src,u32 n){ for(u32 i=0;i<n;i++){ DInst&d=emit(D_MOV,&I); d.dst=dst+i; d.a=at(src,i);} }
  static u32 aggSlot(Type*t,ArrayRef<unsigned> idx){ u32 o=0; for(unsigned i:idx){ if(auto*st=dyn_cast<StructType>(t)){ for(unsigned j=0;j<i;j++) o+=slotsOf(st->getElementType(j)); t=st->getElementType(i);} else { auto*at_=cast<ArrayType>(t); o+=i*slotsOf(at_->getElementType()); t=at_->getElementType(); } } return o; }
  void call(const CallBase&CB){
    if(CB.isInlineAsm()){ auto*ia=cast<InlineAsm>(CB.getCalledOperand()); if(ia->getAsmString().empty()&&CB.getType()->isVoidTy()){ return; } DInst&d=emit(D_UNSUP,&CB); (void)d; return; }
    const Function*cf=CB.getCalledFunction(); if(!cf) if(auto*ga=dyn_cast<GlobalAlias>(CB.getCalledOperand()->stripPointerCasts())) cf=dyn_cast<Function>(ga->getAliasee()->stripPointerCasts());
    std::vector<int> args; std::vector<u8> aw; u32 a0=D.args.size(); 
    if(cf&&cf->isIntrinsic()){
      auto id=cf->getIntrinsicID();
      switch(id){ case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::var_annotation: return;
        case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ptr_annotation: case Intrinsic::annotation: mov(CB,reg[&CB],op(CB.getArgOperand(0)),1); return;
        default: break; }
      u32 n=1; if(auto*vt=dyn_cast<FixedVectorType>(CB.getType())) n=vt->getNumElements(); if(isa<StructType>(CB.getType())) n=1;
      for(u32 lane=0;lane<n;lane++){ u32 b0=D.args.size(); for(unsigned i=0;i<CB.arg_size();i++){ Value*v=CB.getArgOperand(i); if(v->getType()->isMetadataTy()){ D.args.push_back(~0); continue; } int o=op(v); D.args.push_back(isa<FixedVectorType>(v->getType())? at(o,lane): o); }
        DInst&d=emit(D_INTR,&CB); d.k=id; d.x0=b0; d.xn=CB.arg_size(); d.w=CB.getType()->isVoidTy()?0:widthOf(isa<StructType>(CB.getType())? cast<StructType>(CB.getType())->getElementType(0): CB.getType()); d.w2=CB.arg_size()? widthOf(CB.getArgOperand(0)->getType()):0; d.dst=CB.getType()->isVoidTy()?-1: reg[&CB]+lane; }
      (void)a0; if(auto*II=dyn_cast<InvokeInst>(&CB)){ DInst&d=emit(D_BR,&CB); u32 e=edge(II->getParent(),II->getNormalDest()); D.code.back().x0=e; (void)d; }
      return; }
    for(unsigned i=0;i<CB.arg_size();i++){ Value*v=CB.getArgOperand(i); int o=op(v); u32 n=slotsOf(v->getType()); for(u32 j=0;j<n;j++){ D.args.push_back(at(o,j)); u32 bv=0; if(CB.isByValArgument(i)) bv=DL->getTypeAllocSize(CB.getParamByValType(i)); D.args.push_back((int)bv); } }
    u32 e0=0,e1=0; bool inv=isa<InvokeInst>(CB); if(inv){ auto*II=cast<InvokeInst>(&CB); e0=edge(II->getParent(),II->getNormalDest()); e1=edge(II->getParent(),II->getUnwindDest()); }
    DInst&d=emit(D_CALL,&CB); d.x0=a0; d.xn=(D.args.size()-a0)/2; d.dst=CB.getType()->isVoidTy()?-1:reg[&CB]; d.aux=slotsOf(CB.getType()); d.w=CB.getType()->isVoidTy()||d.aux!=1?0:widthOf(CB.getType()); d.w2=inv; d.b=e0; d.c=e1; if(cf) d.fn=getFunc(cf); else { d.fn=nullptr; d.a=op(CB.getCalledOperand()); }
  }
  void inst(const Instruction&I){
    switch(I.getOpcode()){
      case Instruction::Add: bin(I,E_ADD); break; case Instruction::Sub: bin(I,E_SUB); break; case Instruction::Mul: bin(I,E_MUL); break;
      case Instruction::UDiv: bin(I,E_UDIV); break; case Instruction::SDiv: bin(I,E_SDIV); break; case Instruction::URem: bin(I,E_UREM); break; case Instruction::SRem: bin(I,E_SREM); break;
      case Instruction::And: bin(I,E_AND); break; case Instruction::Or: bin(I,E_OR); break; case Instruction::Xor: bin(I,E_XOR); break;
      case Instruction::Shl: bin(I,E_SHL); break; case Instruction::LShr: bin(I,E_LSHR); break; case Instruction::AShr: bin(I,E_ASHR); break;
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: { int a=op(I.getOperand(0)),b=op(I.getOperand(1)); u32 n=slotsOf(I.getType()); for(u32 i=0;i<n;i++){ DInst&d=emit(D_FBIN,&I); d.aux= I.getOpcode()==Instruction::FAdd?E_FADD: I.getOpcode()==Instruction::FSub?E_FSUB: I.getOpcode()==Instruction::FMul?E_FMUL:E_FDIV; d.w=widthOf(I.getType()); d.dst=reg[&I]+i; d.a=at(a,i); d.b=at(b,i);} break; }
      case Instruction::FNeg: { DInst&d=emit(D_FNEG,&I); d.w=widthOf(I.getType()); d.dst=reg[&I]; int a=op(I.getOperand(0)); D.code.back().a=a; break; }
      case Instruction::ICmp: { auto&C=cast<ICmpInst>(I); int a=op(I.getOperand(0)),b=op(I.getOperand(1)); u32 n=slotsOf(I.getType()); for(u32 i=0;i<n;i++){ DInst&d=emit(D_ICMP,&I); d.w=widthOf(I.getOperand(0)->getType()); d.dst=reg[&I]+i; d.a=at(a,i); d.b=at(b,i); d.aux=C.getPredicate(); } break; }
      case Instruction::FCmp: { auto&C=cast<FCmpInst>(I); int a=op(I.getOperand(0)),b=op(I.getOperand(1)); DInst&d=emit(D_FCMP,&I); d.w=widthOf(I.getOperand(0)->getType()); d.dst=reg[&I]; d.a=a; d.b=b; d.aux=C.getPredicate(); break; }
      case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: { int a=op(I.getOperand(0)); u32 n=slotsOf(I.getType()); for(u32 i=0;i<n;i++){ DInst&d=emit(I.getOpcode()==Instruction::ZExt?D_ZEXT:I.getOpcode()==Instruction::SExt?D_SEXT:D_TRUNC,&I); d.w=widthOf(I.getType()); d.w2=widthOf(I.getOperand(0)->getType()); d.dst=reg[&I]+i; d.a=at(a,i);} break; }
      case Instruction::BitCast: { int a=op(I.getOperand(0)); if(slotsOf(I.getType())!=slotsOf(I.getOperand(0)->getType())){ emit(D_UNSUP,&I); break; } mov(I,reg[&I],a,slotsOf(I.getType())); break; }
      case Instruction::PtrToInt: case Instruction::IntToPtr: { int a=op(I.getOperand(0)); unsigned w=widthOf(I.getType()), w2=widthOf(I.getOperand(0)->getType()); DInst&d=emit(w==w2?D_MOV: w<w2? D_TRUNC: D_ZEXT,&I); d.w=w; d.w2=w2; d.dst=reg[&I]; d.a=a; break; }
      case Instruction::Freeze: mov(I,reg[&I],op(I.getOperand(0)),slotsOf(I.getType())); break;
      case Instruction::FPExt: case Instruction::FPTrunc: { int a=op(I.getOperand(0)); DInst&d=emit(D_FCVT,&I); d.w=widthOf(I.getType()); d.w2=widthOf(I.getOperand(0)->getType()); d.dst=reg[&I]; d.a=a; break; }
      case Instruction::SIToFP: case Instruction::UIToFP: { int a=op(I.getOperand(0)); DInst&d=emit(D_I2F,&I); d.aux=I.getOpcode()==Instruction::SIToFP?E_SI2F:E_UI2F; d.w=widthOf(I.getType()); d.w2=widthOf(I.getOperand(0)->getType()); d.dst=reg[&I]; d.a=a; break; }
      case Instruction::FPToSI: case Instruction::FPToUI: { int a=op(I.getOperand(0)); DInst&d=emit(D_F2I,&I); d.aux=I.getOpcode()==Instruction::FPToSI?E_F2SI:E_F2UI; d.w=widthOf(I.getType()); d.w2=widthOf(I.getOperand(0)->getType()); d.dst=reg[&I]; d.a=a; break; }
      case Instruction::Select: { auto&S=cast<SelectInst>(I); int c=op(S.getCondition()),a=op(S.getTrueValue()),b=op(S.getFalseValue()); u32 n=slotsOf(I.getType()); bool vc=S.getCondition()->getType()->isVectorTy(); bool agg=I.getType()->isAggregateType(); std::vector<Leaf> L; if(agg) leaves(I.getType(),0,L); for(u32 i=0;i<n;i++){ DInst&d=emit(D_SELECT,&I); d.w=agg? L[i].w: widthOf(I.getType()); d.w2=I.getType()->isPointerTy(); d.dst=reg[&I]+i; d.a=at(a,i); d.b=at(b,i); d.c=vc? at(c,i): c; } break; }
      case Instruction::GetElementPtr: { auto&G=cast<GetElementPtrInst>(I); if(I.getType()->isVectorTy()){ emit(D_UNSUP,&I); break; } int a=op(G.getPointerOperand()); u64 off=0; std::vector<GepIdx> ix; for(auto it=gep_type_begin(G),e=gep_type_end(G);it!=e;++it){ if(auto*st=it.getStructTypeOrNull()){ off+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(it.getOperand())->getZExtValue()); } else { u64 sz=DL->getTypeAllocSize(it.getIndexedType()); if(auto*ci=dyn_cast<ConstantInt>(it.getOperand())) off+=sz*ci->getSExtValue(); else ix.push_back({op(it.getOperand()),sz,(u8)widthOf(it.getOperand()->getType())}); } }
        DInst&d=emit(D_GEP,&I); d.dst=reg[&I]; d.a=a; d.k=off; d.x0=D.geps.size(); d.xn=ix.size(); for(auto&x:ix) D.geps.push_back(x); break; }
      case Instruction::Load: { std::vector<Leaf> L; leaves(I.getType(),0,L); int a=op(I.getOperand(0)); for(u32 i=0;i<L.size();i++){ DInst&d=emit(D_LOAD,&I); d.dst=reg[&I]+i; d.a=a; d.k=L[i].off; d.w=L[i].w; d.w2=L[i].bytes; } break; }
      case Instruction::Store: { std::vector<Leaf> L; leaves(I.getOperand(0)->getType(),0,L); int v=op(I.getOperand(0)),a=op(I.getOperand(1)); for(u32 i=0;i<L.size();i++){ DInst&d=emit(D_STORE,&I); d.a=a; d.b=at(v,i); d.k=L[i].off; d.w=L[i].w; d.w2=L[i].bytes; } break; }
      case Instruction::Alloca: { auto&A=cast<AllocaInst>(I); int n=op(A.getArraySize()); DInst&d=emit(D_ALLOCA,&I); d.dst=reg[&I]; d.k=DL->getTypeAllocSize(A.getAllocatedType()); d.a=n; break; }
      case Instruction::Br: { auto&B=cast<BranchInst>(I); if(B.isUnconditional()){ u32 e=edge(B.getParent(),B.getSuccessor(0)); DInst&d=emit(D_BR,&I); d.x0=e; } else { int c=op(B.getCondition()); u32 e0=edge(B.getParent(),B.getSuccessor(0)), e1=edge(B.getParent(),B.getSuccessor(1)); DInst&d=emit(D_CBR,&I); d.a=c; d.b=e0; d.c=e1; } break; }
      case Instruction::Switch: { auto&S=cast<SwitchInst>(I); int c=op(S.getCondition()); std::vector<CaseT> cs; for(auto&k:S.cases()) cs.push_back({k.getCaseValue()->getZExtValue(),edge(S.getParent(),k.getCaseSuccessor())}); u32 de=edge(S.getParent(),S.getDefaultDest()); DInst&d=emit(D_SWITCH,&I); d.a=c; d.w=widthOf(S.getCondition()->getType()); d.b=de; d.x0=D.cases.size(); d.xn=cs.size(); for(auto&k:cs) D.cases.push_back(k); break; }
      case Instruction::Ret: { auto&R=cast<ReturnInst>(I); Value*v=R.getReturnValue(); int o=v? op(v):0; DInst&d=emit(D_RET,&I); d.xn=v? slotsOf(v->getType()):0; d.a=o; break; }
      case Instruction::Unreachable: emit(D_UNREACH,&I); break;
      case Instruction::PHI: break;
      case Instruction::Call: case Instruction::Invoke: call(cast<CallBase>(I)); break;
      case Instruction::LandingPad: { auto&L=cast<LandingPadInst>(I); u32 a0=D.args.size(); for(unsigned i=0;i<L.getNumClauses();i++){ D.args.push_back(L.isCatch(i)? 1:0); D.args.push_back(L.isCatch(i)? op(L.getClause(i)):~0); } DInst&d=emit(D_LPAD,&I); d.dst=reg[&I]; d.x0=a0; d.xn=L.getNumClauses(); d.aux=L.isCleanup(); break; }
      case Instruction::Resume: { int a=op(I.getOperand(0)); DInst&d=emit(D_RESUME,&I); d.a=a; break; }
      case Instruction::ExtractValue: { auto&X=cast<ExtractValueInst>(I); int a=op(X.getAggregateOperand()); u32 o=aggSlot(X.getAggregateOperand()->getType(),X.getIndices()); mov(I,reg[&I],at(a,o),slotsOf(I.getType())); break; }
      case Instruction::InsertValue: { auto&X=cast<InsertValueInst>(I); int a=op(X.getAggregateOperand()),v=op(X.getInsertedValueOperand()); u32 o=aggSlot(I.getType(),X.getIndices()); mov(I,reg[&I],a,slotsOf(I.getType())); mov(I,reg[&I]+o,v,slotsOf(X.getInsertedValueOperand()->getType())); break; }
      case Instruction::ExtractElement: { int a=op(I.getOperand(0)); if(auto*ci=dyn_cast<ConstantInt>(I.getOperand(1))) mov(I,reg[&I],at(a,ci->getZExtValue()),1); else emit(D_UNSUP,&I); break; }
      case Instruction::InsertElement: { int a=op(I.getOperand(0)),v=op(I.getOperand(1)); if(auto*ci=dyn_cast<ConstantInt>(I.getOperand(2))){ mov(I,reg[&I],a,slotsOf(I.getType())); mov(I,reg[&I]+ci->getZExtValue(),v,1);} else emit(D_UNSUP,&I); break; }
      case Instruction::ShuffleVector: { auto&S=cast<ShuffleVectorInst>(I); int a=op(I.getOperand(0)),b=op(I.getOperand(1)); u32 n=slotsOf(I.getOperand(0)->getType()); u32 i=0; for(int m:S.getShuffleMask()){ if(m>=0) mov(I,reg[&I]+i,m<(int)n? at(a,m): at(b,m-n),1); i++; } break; }
      case Instruction::AtomicRMW: { auto&A=cast<AtomicRMWInst>(I); int p=op(A.getPointerOperand()),v=op(A.getValOperand()); DInst&d=emit(D_ATOMRMW,&I); d.dst=reg[&I]; d.a=p; d.b=v; d.w=widthOf(A.getType()); d.w2=DL->getTypeStoreSize(A.getType()); d.aux=A.getOperation(); break; }
      case Instruction::AtomicCmpXchg: { auto&A=cast<AtomicCmpXchgInst>(I); int p=op(A.getPointerOperand()),c=op(A.getCompareOperand()),v=op(A.getNewValOperand()); DInst&d=emit(D_CMPXCHG,&I); d.dst=reg[&I]; d.a=p; d.b=c; d.c=v; d.w=widthOf(A.getCompareOperand()->getType()); d.w2=d.w/8; break; }
      case Instruction::Fence: break;
      default: emit(D_UNSUP,&I); }
  }
};
static DFunc* getFunc(const Function*f){ auto it=g_fmap.find(f); if(it!=g_fmap.end()) return it->second; DFunc*d=new DFunc; d->F=const_cast<Function*>(f); d->name=f->getName().str(); d->addr=((u64)R_FUNC<<REGSH)|((u64)(g_funcs.size()+1)<<5); auto b=g_builtins.find(d->name); if(b!=g_builtins.end()) d->bi=b->second; g_funcs.push_back(d); g_fmap[f]=d; return d; }
static DFunc* funcAt(u64 a){ if(regOf(a)!=R_FUNC) return nullptr; u64 i=(a&((1ull<<REGSH)-1))>>5; if(!i||i>g_funcs.size()||(a&31)) return nullptr; return g_funcs[i-1]; }
static void ensureDecoded(DFunc*d){ if(d->decoded) return; d->decoded=true; Decoder(*d).run(); }

// ---------------------------------------------------------------- execution
static inline const Val& rv(State&s,u32 base,int o){ return o>=0? s.regs[base+o] : g_cpool[~o]; }
static void takeEdge(State&s,u32 e){ Frame&f=s.fr.back(); const DEdge&ed=f.f->edges[e]; if(ed.cn){ static thread_local std::vector<Val> tmp; tmp.resize(ed.cn); const Copy*c=&f.f->copies[ed.c0]; for(u32 i=0;i<ed.cn;i++) tmp[i]=rv(s,f.base,c[i].src); for(u32 i=0;i<ed.cn;i++) s.regs[f.base+c[i].dst]=tmp[i]; } f.ip=&f.f->code[ed.target]; }
static void setRet(State&s,const DInst*I,const Val&v){ if(I->dst>=0) s.regs[s.fr.back().base+I->dst]=v; }
static void advanceCall(State&s,const DInst*I){ if(I->w2) takeEdge(s,I->b); else s.fr.back().ip=I+1; }
static void pushFrame(State&s,DFunc*f,const Val*args,int n,const DInst*callsite){
  ensureDecoded(f); f->executed=true; if(s.fr.size()>2000) violKill(s,"stack-overflow","recursion deeper than 2000 frames");
  Frame fr; fr.f=f; fr.ip=&f->code[0]; fr.base=s.fr.empty()?0: s.fr.back().base+s.fr.back().f->nregs; fr.stackMark=s.rg[R_STACK].n; fr.freeOnRet=0; fr.curExc=0; fr.curTI=0; fr.callsite=callsite; u32 need=fr.base+f->nregs; if(s.regs.size()<need) s.regs.resize(need); for(u32 i=0;i<f->nregs;i++) s.regs[fr.base+i]= i<(u32)n? args[i]: mkV(0); s.regs.resize(need); s.fr.push_back(fr); }
static void popStack(State&s,u32 mark){ Region&R=s.rg[R_STACK]; while(R.n>mark){ u32 id=--R.n; Chunk*c=R.wr(id>>6); decObj(c->o[id&63]); c->o[id&63]=nullptr; } }

// exceptions
static u64 vt_class=0, vt_si=0, vt_vmi=0;
static bool tiDerives(State&s,u64 ti,u64 target,u64&adj){ if(ti==target) return true; u64 vt=rd64(s,ti); if(vt==vt_si+16) return tiDerives(s,rd64(s,ti+16),target,adj); if(vt==vt_vmi+16){ Obj*o=checkAcc(s,ti+20,4,false); u32 n=(u32)loadAt(s,o->base,ti+20-o->base,4,32).c; for(u32 i=0;i<n;i++){ u64 b=rd64(s,ti+24+16*i); i64 of=(i64)rd64(s,ti+32+16*i)>>8; u64 a2=adj+of; if(tiDerives(s,b,target,a2)){ adj=a2; return true; } } } return false; }
static std::vector<u64> g_tids; static u32 tidFor(u64 ti){ for(size_t i=0;i<g_tids.size();i++) if(g_tids[i]==ti) return i+1; g_tids.push_back(ti); return g_tids.size(); }
// find landing pad of an edge target
static const DInst* lpadOf(DFunc*f,u32 edge){ const DInst*p=&f->code[f->edges[edge].target]; while(p->op!=D_LPAD) p++; return p; }
static int matchClause(State&s,DFunc*f,const DInst*lp,u64 ti){ for(u32 i=0;i<lp->xn;i++){ int kind=f->args[lp->x0+2*i]; if(!kind) continue; u64 c=g_cpool[~f->args[lp->x0+2*i+1]].c; u64 adj=0; if(c==0||tiDerives(s,ti,c,adj)) return i; } return -1; }
static std::string tiName(State&s,u64 ti){ std::string n=cstr(s,rd64(s,ti+8)); return demangle(("_Z"+(isdigit(n[0])? n: n)).c_str()); }
static void unwind(State&s,u64 exc,u64 ti,int startFrame){
  // phase 1: is there any handler
  bool found=false; for(int i=startFrame;i>=0&&!found;i--){ Frame&f=s.fr[i]; const DInst*I=f.ip; if(I->op==D_CALL&&I->w2){ const DInst*lp=lpadOf(f.f,I->c); if(matchClause(s,f.f,lp,ti)>=0) found=true; } }
  if(!found) violKill(s,"uncaught","uncaught exception of type "+cstr(s,rd64(s,ti+8)));
  for(;;){ Frame&f=s.fr.back(); const DInst*I=f.ip; if(I->op==D_CALL&&I->w2){ const DInst*lp=lpadOf(f.f,I->c); int m=matchClause(s,f.f,lp,ti); if(m>=0||lp->aux||lp->xn>0){ if(m>=0||lp->aux){ u32 sel=0; if(m>=0){ u64 c=g_cpool[~f.f->args[lp->x0+2*m+1]].c; sel=tidFor(c); } f.curExc=exc; f.curTI=ti; takeEdge(s,I->c); const DInst*L=s.fr.back().ip; while(L->op!=D_LPAD) L++; s.fr.back().ip=L; s.regs[s.fr.back().base+L->dst]=mkV(exc); s.regs[s.fr.back().base+L->dst+1]=mkV(sel); s.fr.back().ip=L+1; return; } } }
    popStack(s,f.stackMark); s.fr.pop_back(); if(s.fr.empty()) fatal("unwind past bottom"); } }

static E valE(const Val&v,unsigned w){ return toE(v,w); }
static void checkUninitBranch(State&s,E c){ if(hasUninit(s,c)){ g_st.uninit_branches++; violation(s,"uninit","branch depends on uninitialised memory",s.model); g_st.killed--; } }

static std::string strArg(State&s,const Val&v){ if(v.e) return "?"; return cstr(s,v.c); }
static u64 g_rng=1; static int optSamples=24;
static void finishPath(State&s){ g_st.paths++; s.alive=false; size_t slot=g_samples.size(); g_rng=g_rng*6364136223846793005ull+1442695040888963407ull; if((int)slot>=optSamples){ slot=(g_rng>>33)%g_st.paths; if((int)slot>=optSamples) return; }
  std::string r; char b[40]; for(u32 i:s.inputs){ snprintf(b,8,"%02x",i<s.model->v.size()? s.model->v[i]:0); r+=b; } r+="|";
  for(auto&t:s.trace){ r+=*t.first; if(t.second.e||t.second.c!=0x5245414348ull){ u64 v=t.second.e? (u64)evalModel(t.second.e,s.model): t.second.c; snprintf(b,40,"=%llu",(unsigned long long)v); r+=b; } r+=";"; }
  if(slot<g_samples.size()) g_samples[slot]=r; else g_samples.push_back(r); }

// ---- builtins: called with args evaluated (flattened); must set return + advance ip
#define BI(name) static void name(State&s,const DInst*I,const Val*a,int n)
#define RET(v) do{ setRet(s,I,(v)); advanceCall(s,I); return; }while(0)
#define RETV do{ advanceCall(s,I); return; }while(0)
BI(bi_sym_bytes){ u64 p=concretize(s,a[0],64), cnt=concretize(s,a[1],64); checkAcc(s,p,cnt,true); std::string nm=strArg(s,a[2]); for(u64 i=0;i<cnt;i++){ u32 v=newVar(s,false); Obj*o=wrObj(s,p); setByte(o,p-o->base+i,0,mkVar(v),2); s.inputs.push_back(v);} s.names+=nm+":"+std::to_string(cnt)+" "; RETV; }
static E asBool(const Val&v,unsigned w=1){ E e=toE(v,w); if(e->w==1) return e; return mkNe(e,mkConst(0,e->w)); }
static unsigned argW(const DInst*I,int i){ return widthOf(cast<CallBase>(I->I)->getArgOperand(i)->getType()); }
BI(bi_sym_assume){ E c=asBool(a[0],argW(I,0)); Model*m=nullptr; if(!feasible(s,c,&m)){ s.alive=false; throw PathEnd(); } setModel(s,m); addC(s,c); RETV; }
BI(bi_sym_assert){ E c=asBool(a[0],argW(I,0)); std::string id=strArg(s,a[1]); g_st.asserts++; g_assertIds[id]++; if(isC(c)){ if(!c->k){ violation(s,"assert",id,s.model); kill(s);} RETV; }
  g_st.asserts_sym++; E nc=mkNot(c); if(evalModel(nc,s.model)){ violation(s,"assert",id,s.model); Model*m=nullptr; if(!feasible(s,c,&m)) kill(s); setModel(s,m); addC(s,c); RETV; }
  std::vector<u32> vars; std::vector<u8> vals; Res r=query(s,nc,vars,vals,true); g_st.asserts_solver++;
  if(r==SAT){ Model*m=cloneModel(s.model); if(m->v.size()<s.nvars) m->v.resize(s.nvars); for(size_t i=0;i<vars.size();i++) m->v[vars[i]]=vals[i]; violation(s,"assert",id,m); delete m; addC(s,c); }
  else if(r==UNKNOWN){ g_st.asserts_inconcl++; g_errors.insert("solver unknown on assertion "+id); }
  RETV; }
BI(bi_sym_reach){ std::string nm=strArg(s,a[0]); g_reach.insert(nm); const std::string*l=&*g_plabels.insert(nm).first; s.trace.push_back({l,mkV(0x5245414348ull)}); RETV; }
BI(bi_sym_concretize){ u64 v=concretize(s,a[0],64); RET(mkV(v)); }
BI(bi_sym_live){ u64 c=0; Region&R=s.rg[R_HEAP]; for(auto*ch:R.ch) for(auto*o:ch->o) if(o) c++; RET(mkV(c)); }
BI(bi_sym_print){ s.trace.push_back({&*g_plabels.insert(strArg(s,a[0])).first,a[1]}); if(optDebug){ std::string t=strArg(s,a[0]); fprintf(stderr,"PRINT %s: %s\n",t.c_str(), a[1].e? exprStr(a[1].e,12).c_str(): std::to_string((long long)a[1].c).c_str()); } RETV; }
BI(bi_sym_end){ finishPath(s); throw PathEnd(); }
BI(bi_sym_engine){ RET(mkV(1)); }
BI(bi_malloc){ u64 sz=concretize(s,a[0],64); if(sz>0xF0000){ RET(mkV(0)); } RET(mkV(heapAlloc(s,sz,1))); }
BI(bi_calloc){ u64 x=concretize(s,a[0],64), y=concretize(s,a[1],64); u64 p=heapAlloc(s,x*y,1); setMem(s,p,mkV(0),x*y); RET(mkV(p)); }
BI(bi_sym_fail_new){ s.failNew=concretize(s,a[0],64); RETV; }
static bool newFails(State&s,const DInst*I){ if(!s.failNew||--s.failNew) return false; Function*f=g_mod->getFunction("_ZSt17__throw_bad_allocv"); if(!f||f->isDeclaration()) unsupported(s,"no bad_alloc"); pushFrame(s,getFunc(f),nullptr,0,I); return true; }
BI(bi_new){ if(newFails(s,I)) return; u64 sz=concretize(s,a[0],64); if(sz>0xF0000) unsupported(s,"operator new with huge size "+std::to_string(sz)); RET(mkV(heapAlloc(s,sz,2))); }
BI(bi_newarr){ if(newFails(s,I)) return; u64 sz=concretize(s,a[0],64); if(sz>0xF0000) unsupported(s,"operator new[] with huge size"); RET(mkV(heapAlloc(s,sz,3))); }
static void doFree(State&s,u64 p,int sub,const char*w){ if(!p) return; Obj*o=findObj(s,p); if(!o||o->base!=p||o->kind!=K_HEAP) violKill(s,"memory",std::string("invalid or double ")+w); if(sub&&o->sub!=sub) violKill(s,"memory",std::string("mismatched deallocation ")+w); dropObj(s,p); }
BI(bi_free){ doFree(s,concretize(s,a[0],64),1,"free"); RETV; }
BI(bi_delete){ doFree(s,concretize(s,a[0],64),2,"delete"); RETV; }
BI(bi_deletearr){ doFree(s,concretize(s,a[0],64),3,"delete[]"); RETV; }
BI(bi_realloc){ u64 p=concretize(s,a[0],64), sz=concretize(s,a[1],64); if(sz>0xF0000) unsupported(s,"realloc huge"); u64 q=heapAlloc(s,sz,1); if(p){ Obj*o=findObj(s,p); if(!o||o->base!=p||o->kind!=K_HEAP) violKill(s,"memory","invalid realloc"); u64 k=std::min<u64>(o->size,sz); copyMem(s,q,p,k); doFree(s,p,1,"realloc"); } RET(mkV(q)); }
static void doCopy(State&s,const Val&d,const Val&src,const Val&nn){ u64 n=concretize(s,nn,64); if(!n) return; u64 D=concretize(s,d,64), S=concretize(s,src,64); copyMem(s,D,S,n); }
BI(bi_memcpy){ doCopy(s,a[0],a[1],a[2]); RET(a[0]); }
BI(bi_memset){ u64 c=concretize(s,a[2],64); u64 d=concretize(s,a[0],64); Val v=a[1]; if(v.e) v=fromE(mkExtract(v.e,0,8)); setMem(s,d,v,c); RET(a[0]); }
static Val memcmpVal(State&s,u64 p,u64 q,u64 n,bool eqOnly){ if(!n) return mkV(0); Obj*po=checkAcc(s,p,n,false); u64 pb=po->base; Obj*qo=checkAcc(s,q,n,false); u64 qb=qo->base;
  if(eqOnly){ E acc=mkConst(1,1); for(u64 i=0;i<n;i++){ acc=mkAnd1(acc,mkEq(symByte(s,pb,p-pb+i),symByte(s,qb,q-qb+i))); if(isC(acc,0)) break; } return fromE(mkIte(acc,mkConst(0,32),mkConst(1,32))); }
  E acc=mkConst(0,32); for(u64 i=n;i-->0;){ E x=symByte(s,pb,p-pb+i), y=symByte(s,qb,q-qb+i); acc=mkIte(mkEq(x,y),acc,mkIte(mkUlt(x,y),mkConst(0xffffffff,32),mkConst(1,32))); } return fromE(acc); }
BI(bi_memcmp){ u64 nn=concretize(s,a[2],64); u64 p=concretize(s,a[0],64), q=concretize(s,a[1],64); RET(memcmpVal(s,p,q,nn,false)); }
BI(bi_bcmp){ u64 nn=concretize(s,a[2],64); u64 p=concretize(s,a[0],64), q=concretize(s,a[1],64); RET(memcmpVal(s,p,q,nn,true)); }
BI(bi_cxa_alloc){ u64 sz=concretize(s,a[0],64); RET(mkV(heapAlloc(s,sz,9))); }
BI(bi_cxa_free){ doFree(s,a[0].c,9,"__cxa_free_exception"); RETV; }
static bool beginThrow(State&s,u64 addr,u64 ti){ unwind(s,addr,ti,s.fr.size()-1); return true; }
BI(bi_cxa_throw){ Exc e{a[0].c,a[1].c,a[2].c,0}; s.inflight.push_back(e); beginThrow(s,e.addr,e.tinfo); }
BI(bi_cxa_begin){ u64 x=a[0].c; for(auto it=s.inflight.begin();it!=s.inflight.end();++it) if(it->addr==x){ Exc e=*it; s.inflight.erase(it); if(!s.caught.empty()&&s.caught.back().addr==x){ int h=s.caught.back().handlers; s.caught.back().handlers= h<0? -h+1: h+1; } else { e.handlers++; s.caught.push_back(e);} RET(mkV(x)); } unsupported(s,"begin_catch of unknown exception"); }
BI(bi_cxa_getptr){ RET(a[0]); }
BI(bi_cxa_end){ if(s.caught.empty()) unsupported(s,"end_catch"); Exc&e=s.caught.back(); if(e.handlers<0){ if(++e.handlers==0) s.caught.pop_back(); RETV; }
  if(--e.handlers==0){ Exc x=e; s.caught.pop_back(); advanceCall(s,I); if(s.pinned.count(x.addr)) return; if(x.dtor){ DFunc*d=funcAt(x.dtor); if(!d) unsupported(s,"exc dtor"); if(d->F->isDeclaration()&&!d->bi) unsupported(s,"exc dtor undefined "+d->name); if(d->bi){ doFree(s,x.addr,9,"exc"); return; } Val arg=mkV(x.addr); pushFrame(s,d,&arg,1,nullptr); s.fr.back().freeOnRet=x.addr; } else doFree(s,x.addr,9,"exc"); return; } RETV; }
BI(bi_cxa_rethrow){ if(s.caught.empty()) violKill(s,"terminate","rethrow without exception"); Exc&e=s.caught.back(); e.handlers=-e.handlers; Exc c=e; s.inflight.push_back(c); s.inflight.back().handlers=0; beginThrow(s,c.addr,c.tinfo); }
// exception_ptr: a captured exception is kept for the rest of the path
BI(bi_aligned){ u64 sz=concretize(s,a[1],64); RET(mkV(heapAlloc(s,sz,1))); }
BI(bi_uncaught){ RET(mkV(s.inflight.size())); }
static void excPtrTo(State&s,u64 p,u64 v){ Obj*o=checkAcc(s,p,8,true); storeAt(s,o->base,p-o->base,8,64,mkV(v)); }
BI(bi_curexc){ u64 v=0; if(!s.caught.empty()){ Exc&e=s.caught.back(); s.pinned[e.addr]=e; v=e.addr; } excPtrTo(s,concretize(s,a[0],64),v); RETV; }
BI(bi_initexc){ Exc e{a[0].c,a[1].c,a[2].c,0}; s.pinned[e.addr]=e; RET(a[0]); }
BI(bi_excptr){ excPtrTo(s,concretize(s,a[0],64),a[1].c); RETV; }
BI(bi_rethrowptr){ u64 v=rd64(s,concretize(s,a[0],64)); auto it=s.pinned.find(v); if(it==s.pinned.end()) unsupported(s,"rethrow_exception"); Exc c=it->second; c.handlers=0; s.inflight.push_back(c); beginThrow(s,c.addr,c.tinfo); }
BI(bi_terminate){ violKill(s,"terminate","std::terminate called"); }
BI(bi_abort){ violKill(s,"abort","abort called"); }
BI(bi_assert_fail){ violKill(s,"abort","assertion failed: "+strArg(s,a[0])); }
BI(bi_pure){ violKill(s,"abort","pure virtual call"); }
BI(bi_guard_acq){ u64 p=concretize(s,a[0],64); Obj*o=checkAcc(s,p,1,false); Val v=loadAt(s,o->base,p-o->base,1,8); RET(mkV(v.c?0:1)); }
BI(bi_guard_rel){ u64 p=concretize(s,a[0],64); Obj*o=checkAcc(s,p,1,true); storeAt(s,o->base,p-o->base,1,8,mkV(1)); RETV; }
BI(bi_guard_abort){ RETV; }
BI(bi_ret0){ RET(mkV(0)); }
BI(bi_exit){ finishPath(s); throw PathEnd(); }
BI(bi_dyncast){ u64 p=concretize(s,a[0],64), dst=a[2].c; if(!p) RET(mkV(0)); u64 vt=rd64(s,p); i64 top=(i64)rd64(s,vt-16); u64 ti=rd64(s,vt-8); u64 whole=p+top; u64 adj=0; if(tiDerives(s,ti,dst,adj)) RET(mkV(whole+adj)); RET(mkV(0)); }
static void registerBuiltins(){
  auto&b=g_builtins; b["sym_bytes"]=bi_sym_bytes; b["sym_assume"]=bi_sym_assume; b["sym_assert"]=bi_sym_assert; b["sym_reach"]=bi_sym_reach; b["sym_concretize"]=bi_sym_concretize; b["sym_live"]=bi_sym_live; b["sym_print"]=bi_sym_print; b["sym_end"]=bi_sym_end; b["sym_engine"]=bi_sym_engine; b["sym_fail_new"]=bi_sym_fail_new;
  b["malloc"]=bi_malloc; b["calloc"]=bi_calloc; b["realloc"]=bi_realloc; b["free"]=bi_free;
  for(auto n:{"_Znwm","_ZnwmRKSt9nothrow_t","_ZnwmSt11align_val_t"}) b[n]=bi_new; for(auto n:{"_Znam","_ZnamRKSt9nothrow_t","_ZnamSt11align_val_t"}) b[n]=bi_newarr;
  for(auto n:{"_ZdlPv","_ZdlPvm","_ZdlPvSt11align_val_t","_ZdlPvmSt11align_val_t"}) b[n]=bi_delete; for(auto n:{"_ZdaPv","_ZdaPvm","_ZdaPvSt11align_val_t"}) b[n]=bi_deletearr;
  b["memcpy"]=bi_memcpy; b["memmove"]=bi_memcpy; b["memset"]=bi_memset; b["memcmp"]=bi_memcmp; b["bcmp"]=bi_bcmp;
  b["__cxa_allocate_exception"]=bi_cxa_alloc; b["__cxa_free_exception"]=bi_cxa_free; b["__cxa_throw"]=bi_cxa_throw; b["__cxa_begin_catch"]=bi_cxa_begin; b["__cxa_get_exception_ptr"]=bi_cxa_getptr; b["__cxa_end_catch"]=bi_cxa_end; b["__cxa_rethrow"]=bi_cxa_rethrow;
  b["_ZSt9terminatev"]=bi_terminate; b["abort"]=bi_abort; b["__assert_fail"]=bi_assert_fail; b["__cxa_pure_virtual"]=bi_pure; b["__cxa_guard_acquire"]=bi_guard_acq; b["__cxa_guard_release"]=bi_guard_rel; b["__cxa_guard_abort"]=bi_guard_abort; b["__cxa_atexit"]=bi_ret0;  b["__cxa_thread_atexit"] = bi_ret0; b["atexit"]=bi_ret0; b["exit"]=bi_exit; for(auto n:{"pthread_mutex_lock","pthread_mutex_unlock","pthread_mutex_trylock","pthread_mutex_init","pthread_mutex_destroy","pthread_rwlock_rdlock","pthread_rwlock_wrlock","pthread_rwlock_unlock"}) b[n]=bi_ret0; b["aligned_alloc"]=bi_aligned; b["_ZSt17current_exceptionv"]=bi_curexc; b["_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE"]=bi_rethrowptr; b["_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv"]=bi_ret0; b["_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv"]=bi_ret0; b["_ZSt19uncaught_exceptionsv"]=bi_uncaught; b["_ZSt18uncaught_exceptionv"]=bi_uncaught; b["__cxa_init_primary_exception"]=bi_initexc; b["_ZNSt15__exception_ptr13exception_ptrC1EPv"]=bi_excptr; b["_ZNSt15__exception_ptr13exception_ptrC2EPv"]=bi_excptr; b["__dynamic_cast"]=bi_dyncast; }

static void intrinsic(State&s,const DInst*I,u32 base){
  Frame&f=s.fr.back(); const int*ar=&f.f->args[I->x0]; auto A=[&](int i)->const Val&{ return rv(s,base,ar[i]); }; unsigned w=I->w; auto set=[&](Val v){ s.regs[base+I->dst]=v; f.ip=I+1; };
  auto bin=[&](u8 op,const Val&x,const Val&y,unsigned ww)->Val{ if(!x.e&&!y.e&&ww<=64) return mkV((u64)binEval(op,ww,x.c,y.c)); return fromE(mkBin(op,toE(x,ww),toE(y,ww))); };
  switch((unsigned)I->k){
   case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: doCopy(s,A(0),A(1),A(2)); s.fr.back().ip=I+1; return;
   case Intrinsic::memset: { u64 c=concretize(s,A(2),64); if(c){ u64 d=concretize(s,A(0),64); setMem(s,d,A(1),c);} s.fr.back().ip=I+1; return; }
   case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: { unsigned id=I->k; Val x=A(0),y=A(1); bool sg=id==Intrinsic::smin||id==Intrinsic::smax; Val lt=bin(sg?E_SLT:E_ULT,x,y,w); bool mn=id==Intrinsic::umin||id==Intrinsic::smin; if(!lt.e){ set((lt.c!=0)==mn? x: y); } else set(fromE(mkIte(lt.e,toE(mn?x:y,w),toE(mn?y:x,w)))); return; }
   case Intrinsic::abs: { Val x=A(0); Val neg=bin(E_SUB,mkV(0),x,w), lt=bin(E_SLT,x,mkV(0),w); if(!lt.e) set(lt.c? neg: x); else set(fromE(mkIte(lt.e,toE(neg,w),toE(x,w)))); return; }
   case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
      unsigned id=I->k; u8 op= id==Intrinsic::uadd_with_overflow||id==Intrinsic::sadd_with_overflow? E_ADD: id==Intrinsic::usub_with_overflow||id==Intrinsic::ssub_with_overflow? E_SUB: E_MUL; bool sg= id==Intrinsic::sadd_with_overflow||id==Intrinsic::ssub_with_overflow||id==Intrinsic::smul_with_overflow; Val x=A(0),y=A(1);
      Val r=bin(op,x,y,w); unsigned ww= op==E_MUL? 2*w: w+1; if(ww>128) unsupported(s,"wide overflow op"); E X= sg? mkSext(toE(x,w),ww): mkZext(toE(x,w),ww), Y= sg? mkSext(toE(y,w),ww): mkZext(toE(y,w),ww); E full=mkBin(op,X,Y); E back= sg? mkSext(toE(r,w),ww): mkZext(toE(r,w),ww); E ov=mkNe(full,back);
      if(op==E_SUB&&!sg) ov=mkUlt(toE(x,w),toE(y,w)); if(op==E_ADD&&!sg) ov=mkUlt(toE(r,w),toE(x,w));
      s.regs[base+I->dst]=r; s.regs[base+I->dst+1]=fromE(ov); f.ip=I+1; return; }
   case Intrinsic::uadd_sat: { Val r=bin(E_ADD,A(0),A(1),w); Val ov=bin(E_ULT,r,A(0),w); set(fromE(mkIte(toE(ov,1),mkConst(maskw(w),w),toE(r,w)))); return; }
   case Intrinsic::usub_sat: { Val r=bin(E_SUB,A(0),A(1),w); Val ov=bin(E_ULT,A(0),A(1),w); set(fromE(mkIte(toE(ov,1),mkConst(0,w),toE(r,w)))); return; }
   case Intrinsic::ctlz: case Intrinsic::cttz: { Val x=A(0); if(!x.e){ u64 v=x.c; unsigned c=0; if(I->k==Intrinsic::ctlz){ while(c<w&&!((v>>(w-1-c))&1)) c++; } else while(c<w&&!((v>>c)&1)) c++; set(mkV(c)); } else { E r=mkConst(w,w); if(I->k==Intrinsic::ctlz){ for(unsigned i=0;i<w;i++) r=mkIte(mkEq(mkExtract(x.e,i,1),mkConst(1,1)),mkConst(w-1-i,w),r); } else for(unsigned i=w;i-->0;) r=mkIte(mkEq(mkExtract(x.e,i,1),mkConst(1,1)),mkConst(i,w),r); set(fromE(r)); } return; }
   case Intrinsic::ctpop: { E x=toE(A(0),w), r=mkConst(0,w); for(unsigned i=0;i<w;i++) r=mkAdd(r,mkZext(mkExtract(x,i,1),w)); set(fromE(r)); return; }
   case Intrinsic::bswap: { E x=toE(A(0),w), r=nullptr; for(unsigned i=0;i<w;i+=8){ E b=mkExtract(x,i,8); r= r? mkConcat(r,b): b; } set(fromE(r)); return; }
   case Intrinsic::fshl: case Intrinsic::fshr: { u64 k=concretize(s,A(2),w)%w; Val x=A(0),y=A(1); E cc=mkConcat(toE(x,w),toE(y,w)); unsigned lo= I->k==Intrinsic::fshl? w-k: k; if(2*w>128){ E r; if(I->k==Intrinsic::fshl) r= k? mkOr(mkShl(toE(x,w),mkConst(k,w)),mkLshr(toE(y,w),mkConst(w-k,w))): toE(x,w); else r= k? mkOr(mkShl(toE(x,w),mkConst(w-k,w)),mkLshr(toE(y,w),mkConst(k,w))): toE(y,w); set(fromE(r)); } else set(fromE(mkExtract(cc,lo,w))); return; }
   case Intrinsic::fabs: { Val x=A(0); if(!x.e) set(mkV(x.c&(w==64? 0x7fffffffffffffffull: 0x7fffffffull))); else set(fromE(mkAnd(x.e,mkConst(maskw(w-1),w)))); return; }
   case Intrinsic::copysign: { E m=mkConst(maskw(w-1),w), sg=mkConst((u128)1<<(w-1),w); set(fromE(mkOr(mkAnd(toE(A(0),w),m),mkAnd(toE(A(1),w),sg)))); return; }
   case Intrinsic::fmuladd: { E p=mkF(E_FMUL,w,0,toE(A(0),w),toE(A(1),w)); set(fromE(mkF(E_FADD,w,0,p,toE(A(2),w)))); return; }
   case Intrinsic::floor: set(fromE(mkF(E_FFLOOR,w,0,toE(A(0),w),nullptr))); return; case Intrinsic::ceil: set(fromE(mkF(E_FFLOOR,w,1,toE(A(0),w),nullptr))); return; case Intrinsic::trunc: set(fromE(mkF(E_FFLOOR,w,2,toE(A(0),w),nullptr))); return; case Intrinsic::rint: case Intrinsic::nearbyint: set(fromE(mkF(E_FFLOOR,w,3,toE(A(0),w),nullptr))); return; case Intrinsic::round: set(fromE(mkF(E_FFLOOR,w,4,toE(A(0),w),nullptr))); return;
   case Intrinsic::maxnum: case Intrinsic::minnum: case Intrinsic::maximum: case Intrinsic::minimum: { E x=toE(A(0),w), y=toE(A(1),w); E lt=mkF(E_FCMP,1,CmpInst::FCMP_OLT,x,y), gt=mkF(E_FCMP,1,CmpInst::FCMP_OGT,x,y), nx=mkF(E_FCMP,1,CmpInst::FCMP_UNO,x,x); bool mx=I->k==Intrinsic::maxnum||I->k==Intrinsic::maximum; set(fromE(mkIte(mkOr1(nx,mx? lt: gt),y,x))); return; }
   case Intrinsic::sqrt: { if(A(0).e) unsupported(s,"sqrt of a symbolic value"); double d; u64 c=A(0).c; if(w==64){ memcpy(&d,&c,8); d=std::sqrt(d); memcpy(&c,&d,8);} else unsupported(s,"sqrtf"); set(mkV(c)); return; }
   case Intrinsic::is_fpclass: { unsigned aw=I->w2; E x=toE(A(0),aw); u64 mask=A(1).c; unsigned mb= aw==64? 52: 23, eb= aw==64? 11: 8; E man=mkExtract(x,0,mb), ex=mkExtract(x,mb,eb), sg=mkEq(mkExtract(x,aw-1,1),mkConst(1,1)); E exA=mkEq(ex,mkConst(maskw(eb),eb)), ex0=mkEq(ex,mkConst(0,eb)), m0=mkEq(man,mkConst(0,mb)), q=mkEq(mkExtract(x,mb-1,1),mkConst(1,1)); E nan=mkAnd1(exA,mkNot(m0)), inf=mkAnd1(exA,m0), zero=mkAnd1(ex0,m0), sub=mkAnd1(ex0,mkNot(m0)), norm=mkAnd1(mkNot(exA),mkNot(ex0)); E r=mkConst(0,1); E ps=mkNot(sg);
      E cl[10]={mkAnd1(nan,mkNot(q)),mkAnd1(nan,q),mkAnd1(inf,sg),mkAnd1(norm,sg),mkAnd1(sub,sg),mkAnd1(zero,sg),mkAnd1(zero,ps),mkAnd1(sub,ps),mkAnd1(norm,ps),mkAnd1(inf,ps)}; for(int i=0;i<10;i++) if(mask>>i&1) r=mkOr1(r,cl[i]); set(fromE(r)); return; }
   case Intrinsic::vastart: { u64 p=concretize(s,A(0),64); Obj*o=checkAcc(s,p,24,true); u64 b=o->base; u32 off=p-b; storeAt(s,b,off,4,32,mkV(48)); storeAt(s,b,off+4,4,32,mkV(304)); storeAt(s,b,off+8,8,64,mkV(f.va)); storeAt(s,b,off+16,8,64,mkV(0)); s.fr.back().ip=I+1; return; }
   case Intrinsic::vaend: s.fr.back().ip=I+1; return;
   case Intrinsic::vacopy: { u64 d=concretize(s,A(0),64), q=concretize(s,A(1),64); copyMem(s,d,q,24); s.fr.back().ip=I+1; return; }
   case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: violKill(s,"trap","llvm.trap / UB check failed");
   case Intrinsic::is_constant: set(mkV(0)); return;
   case Intrinsic::objectsize: set(mkV(~0ull)); return;
   case Intrinsic::eh_typeid_for: set(mkV(tidFor(A(0).c))); return;
   case Intrinsic::load_relative: { u64 p=A(0).c, o=concretize(s,A(1),64); Obj*ob=checkAcc(s,p+o,4,false); Val v=loadAt(s,ob->base,p+o-ob->base,4,32); set(mkV(p+(i64)(int32_t)v.c)); return; }
   case Intrinsic::stacksave: set(mkV(s.rg[R_STACK].n)); return; case Intrinsic::stackrestore: popStack(s,A(0).c); f.ip=I+1; return;
   default: unsupported(s,"intrinsic "+Intrinsic::getBaseName((Intrinsic::ID)I->k).str()); } }

static void doCall(State&s,const DInst*I,u32 base){
  Frame&f=s.fr.back(); DFunc*cf=I->fn;
  if(!cf){ Val p=rv(s,base,I->a); u64 a=concretize(s,p,64); cf=funcAt(a); if(!cf) violKill(s,"memory","indirect call to invalid function pointer"); }
  Val args[64]; int n=I->xn; if(n>64) unsupported(s,"too many args"); const int*ar=n? &f.f->args[I->x0]: nullptr; bool byv=false;
  for(int i=0;i<n;i++){ args[i]=rv(s,base,ar[2*i]); if(ar[2*i+1]) byv=true; }
  if(cf->bi){ cf->bi(s,I,args,n); return; }
  if(cf->F->isDeclaration()) unsupported(s,"call to undefined function "+demangle(cf->name)+" ["+cf->name+"]");
  if(cf->F->isVarArg()){ int fx=(int)cf->F->arg_size(); pushFrame(s,cf,args,std::min(n,fx),I); if(n>fx){ u64 b=allocObj(s,R_STACK,8*(n-fx),K_STACK,true,"varargs"); s.fr.back().va=b; auto*CB=cast<CallBase>(I->I); if((int)CB->arg_size()!=n) unsupported(s,"aggregate variadic argument"); for(int i=fx;i<n;i++){ unsigned w=widthOf(CB->getArgOperand(i)->getType()); if(w>64) unsupported(s,"wide variadic argument"); storeAt(s,b,8*(i-fx),(w+7)/8,w,args[i]); } } return; }
  pushFrame(s,cf,args,n,I);
  if(byv) for(int i=0;i<n;i++) if(ar[2*i+1]){ u64 sz=ar[2*i+1]; u64 b=allocObj(s,R_STACK,sz,K_STACK,false,"byval"); copyMem(s,b,args[i].c,sz); s.regs[s.fr.back().base+i]=mkV(b); } }

static inline u64 mskw(u64 v,unsigned w){ return w>=64? v: v&((1ull<<w)-1); }
static void runState(State&s){
  u64 limit=optMaxInst; u64 startInst=s.ninst; double tlast=now();
  try { while(s.alive){
    Frame&f=s.fr.back(); const DInst*I=f.ip; u32 base=f.base; s.ninst++;
    if((s.ninst&0xfffff)==0){ if(s.ninst>limit) violKill(s,"hang","path exceeds instruction limit"); if(now()-g_t0>optTime){ g_errors.insert("time limit"); s.alive=false; break; } }
    #define R(o) rv(s,base,o)
    #define SET(v) do{ s.regs[base+I->dst]=(v); f.ip=I+1; }while(0)
    switch(I->op){
      case D_NOP: f.ip=I+1; break;
      case D_MOV: SET(R(I->a)); break;
      case D_BIN: { const Val&x=R(I->a); const Val&y=R(I->b); unsigned w=I->w;
        if(I->aux>=E_UDIV&&I->aux<=E_SREM){ if(y.e){ if(concretizeBool(s,mkEq(y.e,mkConst(0,w)))) violKill(s,"div0","division by zero"); } else if(!y.c) violKill(s,"div0","division by zero"); }
        if(!x.e&&!y.e&&w<=64){ u64 a=x.c,b=y.c,r; switch(I->aux){ case E_ADD: r=a+b; break; case E_SUB: r=a-b; break; case E_MUL: r=a*b; break; case E_AND: r=a&b; break; case E_OR: r=a|b; break; case E_XOR: r=a^b; break; default: r=(u64)binEval(I->aux,w,a,b); } SET(mkV(mskw(r,w))); }
        else { Val r=fromE(mkBin(I->aux,toE(x,w),toE(y,w))); SET(r); } break; }
      case D_ICMP: { const Val&x=R(I->a); const Val&y=R(I->b); unsigned w=I->w;
        if(!x.e&&!y.e){ u64 a=x.c,b=y.c; bool r; unsigned sh=64-w; i64 sa=(i64)(a<<sh)>>sh, sb=(i64)(b<<sh)>>sh; switch(I->aux){ case CmpInst::ICMP_EQ: r=a==b; break; case CmpInst::ICMP_NE: r=a!=b; break; case CmpInst::ICMP_UGT: r=a>b; break; case CmpInst::ICMP_UGE: r=a>=b; break; case CmpInst::ICMP_ULT: r=a<b; break; case CmpInst::ICMP_ULE: r=a<=b; break; case CmpInst::ICMP_SGT: r=sa>sb; break; case CmpInst::ICMP_SGE: r=sa>=sb; break; case CmpInst::ICMP_SLT: r=sa<sb; break; default: r=sa<=sb; } SET(mkV(r)); }
        else { E a=toE(x,w), b=toE(y,w), r; switch(I->aux){ case CmpInst::ICMP_EQ: r=mkEq(a,b); break; case CmpInst::ICMP_NE: r=mkNe(a,b); break; case CmpInst::ICMP_UGT: r=mkUlt(b,a); break; case CmpInst::ICMP_UGE: r=mkUle(b,a); break; case CmpInst::ICMP_ULT: r=mkUlt(a,b); break; case CmpInst::ICMP_ULE: r=mkUle(a,b); break; case CmpInst::ICMP_SGT: r=mkSlt(b,a); break; case CmpInst::ICMP_SGE: r=mkSle(b,a); break; case CmpInst::ICMP_SLT: r=mkSlt(a,b); break; default: r=mkSle(a,b); } Val v=fromE(r); SET(v); } break; }
      case D_ZEXT: { Val x=R(I->a); if(x.e||I->w>64) x=fromE(mkZext(toE(x,I->w2),I->w)); SET(x); break; }
      case D_SEXT: { Val x=R(I->a); if(x.e||I->w>64) x=fromE(mkSext(toE(x,I->w2),I->w)); else x=mkV(mskw((u64)((i64)(x.c<<(64-I->w2))>>(64-I->w2)),I->w)); SET(x); break; }
      case D_TRUNC: { Val x=R(I->a); if(x.e) x=fromE(mkExtract(x.e,0,I->w)); else x=mkV(mskw(x.c,I->w)); SET(x); break; }
      case D_SELECT: { const Val&c=R(I->c); if(!c.e){ Val v= c.c&1? R(I->a): R(I->b); SET(v); } else if(I->w2){ if(!R(I->a).e&&!R(I->b).e&&R(I->a).c==R(I->b).c){ Val v=R(I->a); SET(v); } else { bool t=concretizeBool(s,c.e); Val v= t? R(I->a): R(I->b); SET(v);} } else { Val v=fromE(mkIte(c.e,toE(R(I->a),I->w),toE(R(I->b),I->w))); SET(v); } break; }
      case D_GEP: { const Val&p=R(I->a); bool sym=p.e!=nullptr; u64 acc=I->k; for(u32 i=0;i<I->xn;i++){ const GepIdx&g=f.f->geps[I->x0+i]; const Val&x=R(g.op); if(x.e){ E xe=x.e; while(xe->op==E_ZEXT||xe->op==E_SEXT) xe=xe->a; if(xe->w==1&&!isC(xe)) concretizeBool(s,xe); else if(xe->op==E_ITE&&isC(xe->b)&&isC(xe->c)) concretizeBool(s,xe->a); else { sym=true; break; } Model tm; u64 xv=(u64)evalModel(x.e,s.model); acc+=g.scale*(u64)((i64)(xv<<(64-g.w))>>(64-g.w)); continue; } acc+=g.scale*(u64)((i64)(x.c<<(64-g.w))>>(64-g.w)); }
        if(!sym) SET(mkV(p.c+acc)); else { E e=toE(p,64); u64 k=I->k; for(u32 i=0;i<I->xn;i++){ const GepIdx&g=f.f->geps[I->x0+i]; const Val&x=R(g.op); if(x.e) e=mkAdd(e,mkMul(mkSext(x.e,64),mkConst(g.scale,64))); else k+=g.scale*(u64)((i64)(x.c<<(64-g.w))>>(64-g.w)); } e=mkAdd(e,mkConst(k,64)); SET(fromE(e)); } break; }
      case D_LOAD: { Val p=R(I->a); Val v=doLoad(s,p,I->k,I->w2,I->w); s.regs[base+I->dst]=v; s.fr.back().ip=I+1; break; }
      case D_STORE: { Val p=R(I->a), v=R(I->b); doStore(s,p,I->k,I->w2,I->w,v); s.fr.back().ip=I+1; break; }
      case D_ALLOCA: { u64 n=concretize(s,R(I->a),64); u64 b=allocObj(s,R_STACK,I->k*n,K_STACK,false,"stack"); SET(mkV(b)); break; }
      case D_BR: takeEdge(s,I->x0); break;
      case D_CBR: { const Val&c=R(I->a); if(!c.e){ takeEdge(s,c.c&1? I->b: I->c); break; } E e=c.e; bool cur=evalModel(e,s.model); E side=cur? e: mkNot(e), oth=cur? mkNot(e): e; if(hasUninit(s,e)) checkUninitBranch(s,e); Model*m=nullptr; if(feasible(s,oth,&m)){ State*n=forkState(s); setModel(*n,m); addC(*n,oth); takeEdge(*n,cur? I->c: I->b); g_work.push_back(n); } addC(s,side); takeEdge(s,cur? I->b: I->c); break; }
      case D_SWITCH: { const Val&c=R(I->a); if(!c.e){ u32 e=I->b; for(u32 i=0;i<I->xn;i++) if(f.f->cases[I->x0+i].v==c.c){ e=f.f->cases[I->x0+i].edge; break; } takeEdge(s,e); break; }
        E x=c.e; if(hasUninit(s,x)) checkUninitBranch(s,x); u64 cur=(u64)evalModel(x,s.model); // group cases by edge target for fewer forks
        std::map<std::pair<u32,std::vector<int>>,std::pair<E,u32>> groups; E none=mkConst(1,1); DFunc*ff=f.f; for(u32 i=0;i<I->xn;i++){ auto&cs=ff->cases[I->x0+i]; E q=mkEq(x,mkConst(cs.v,I->w)); none=mkAnd1(none,mkNot(q)); const DEdge&ed=ff->edges[cs.edge]; std::vector<int> key; for(u32 j=0;j<ed.cn;j++){ key.push_back(ff->copies[ed.c0+j].src); } auto k=std::make_pair(ed.target,key); auto it=groups.find(k); if(it==groups.end()) groups.emplace(k,std::make_pair(q,cs.edge)); else it->second.first=mkOr1(it->second.first,q); }
        u32 myEdge=I->b; E myC=none; std::vector<std::pair<E,u32>> all; for(auto&g:groups) all.push_back(g.second); all.push_back({none,(u32)I->b}); (void)cur;
        for(auto&g:all) if(evalModel(g.first,s.model)){ myEdge=g.second; myC=g.first; }
        for(auto&g:all) if(g.first!=myC){ Model*m=nullptr; if(feasible(s,g.first,&m)){ State*n=forkState(s); setModel(*n,m); addC(*n,g.first); takeEdge(*n,g.second); g_work.push_back(n);} }
        addC(s,myC); takeEdge(s,myEdge); break; }
      case D_RET: { Val rvs[32]; u32 n=I->xn; if(n>32) unsupported(s,"large return"); for(u32 i=0;i<n;i++) rvs[i]=R(I->a>=0? I->a+(int)i: ~(~I->a+(int)i)); u64 fo=f.freeOnRet; const DInst*cs=f.callsite; popStack(s,f.stackMark); s.fr.pop_back(); if(fo) doFree(s,fo,9,"exception"); if(s.fr.empty()){ finishPath(s); break; } s.regs.resize(s.fr.back().base+s.fr.back().f->nregs); if(cs){ if(cs->dst>=0) for(u32 i=0;i<n;i++) s.regs[s.fr.back().base+cs->dst+i]=rvs[i]; advanceCall(s,cs); } break; }
      case D_CALL: doCall(s,I,base); break;
      case D_INTR: intrinsic(s,I,base); break;
      case D_UNREACH: violKill(s,"unreachable","undefined behaviour: unreachable code reached");
      case D_RESUME: { u64 ex=R(I->a).c; u64 ti=f.curTI; popStack(s,f.stackMark); s.fr.pop_back(); if(s.fr.empty()) fatal("resume past bottom"); unwind(s,ex,ti,s.fr.size()-1); break; }
      case D_FBIN: { const Val&x=R(I->a); const Val&y=R(I->b); if(!x.e&&!y.e) SET(mkV((u64)fpEval(I->aux,I->w,0,I->w,x.c,y.c))); else { Val v=fromE(mkF(I->aux,I->w,0,toE(x,I->w),toE(y,I->w))); SET(v);} break; }
      case D_FCMP: { const Val&x=R(I->a); const Val&y=R(I->b); if(!x.e&&!y.e) SET(mkV((u64)fpEval(E_FCMP,1,I->aux,I->w,x.c,y.c))); else { Val v=fromE(mkF(E_FCMP,1,I->aux,toE(x,I->w),toE(y,I->w))); SET(v);} break; }
      case D_FNEG: { const Val&x=R(I->a); u64 sb=1ull<<(I->w-1); if(!x.e) SET(mkV(x.c^sb)); else { Val v=fromE(mkXor(x.e,mkConst(sb,I->w))); SET(v);} break; }
      case D_FCVT: { const Val&x=R(I->a); Val v=fromE(mkF(E_FCVT,I->w,0,toE(x,I->w2),nullptr)); SET(v); break; }
      case D_I2F: { const Val&x=R(I->a); Val v=fromE(mkF(I->aux,I->w,0,toE(x,I->w2),nullptr)); SET(v); break; }
      case D_F2I: { const Val&x=R(I->a); Val v=fromE(mkF(I->aux,I->w,0,toE(x,I->w2),nullptr)); SET(v); break; }
      case D_ATOMRMW: { Val p=R(I->a), v=R(I->b); Val old=doLoad(s,p,0,I->w2,I->w); Val nv; u8 op; switch(I->aux){ case AtomicRMWInst::Xchg: nv=v; op=255; break; case AtomicRMWInst::Add: op=E_ADD; break; case AtomicRMWInst::Sub: op=E_SUB; break; case AtomicRMWInst::And: op=E_AND; break; case AtomicRMWInst::Or: op=E_OR; break; default: unsupported(s,"atomicrmw"); } if(op!=255) nv=fromE(mkBin(op,toE(old,I->w),toE(v,I->w))); doStore(s,p,0,I->w2,I->w,nv); s.regs[base+I->dst]=old; s.fr.back().ip=I+1; break; }
      case D_CMPXCHG: { Val p=R(I->a), c=R(I->b), v=R(I->c); Val old=doLoad(s,p,0,I->w2,I->w); bool eq=concretizeBool(s,mkEq(toE(old,I->w),toE(c,I->w))); if(eq) doStore(s,p,0,I->w2,I->w,v); s.regs[base+I->dst]=old; s.regs[base+I->dst+1]=mkV(eq); s.fr.back().ip=I+1; break; }
      default: unsupported(s,"instruction "+std::string(I->I->getOpcodeName())); }
  } } catch(PathEnd&){}
  (void)tlast; g_st.insts+=s.ninst-startInst; }

// ---------------------------------------------------------------- globals
static void initConst(State&s,u64 base,const Constant*c,u64 off){ if(isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)) return; Type*t=c->getType();
  if(auto*cd=dyn_cast<ConstantDataSequential>(c)){ u64 es=DL->getTypeStoreSize(cd->getElementType()); StringRef raw=cd->getRawDataValues(); Obj*o=wrObj(s,base); (void)es; for(u64 i=0;i<raw.size();i++) setByte(o,off+i,(u8)raw[i],nullptr,0); return; }
  if(auto*st=dyn_cast<StructType>(t)){ auto*L=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++) initConst(s,base,c->getAggregateElement(i),off+L->getElementOffset(i)); return; }
  if(auto*at=dyn_cast<ArrayType>(t)){ u64 es=DL->getTypeAllocSize(at->getElementType()); for(unsigned i=0;i<at->getNumElements();i++) initConst(s,base,c->getAggregateElement(i),off+i*es); return; }
  if(auto*vt=dyn_cast<FixedVectorType>(t)){ u64 es=DL->getTypeStoreSize(vt->getElementType()); for(unsigned i=0;i<vt->getNumElements();i++) initConst(s,base,c->getAggregateElement(i),off+i*es); return; }
  Val v=constScalar(c); storeAt(s,base,off,DL->getTypeStoreSize(t),widthOf(t),v); }

static std::string jesc(const std::string&x){ std::string r; for(unsigned char c:x){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if(c<32||c>=127){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r; }
static std::string hex(const std::vector<u8>&v){ std::string r; char b[4]; for(u8 c:v){ snprintf(b,4,"%02x",c); r+=b; } return r; }
// partial result serialisation between worker processes (line based)
static void dumpResult(FILE*o){
  fprintf(o,"S %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu\n",(unsigned long long)g_st.paths,(unsigned long long)g_st.killed,(unsigned long long)g_st.insts,(unsigned long long)g_st.forks,(unsigned long long)g_st.asserts,(unsigned long long)g_st.asserts_sym,(unsigned long long)g_st.asserts_solver,(unsigned long long)g_st.asserts_inconcl,(unsigned long long)g_st.maxdepth,(unsigned long long)g_st.symloads);
  fprintf(o,"Q %llu %llu %llu %llu %llu %llu %llu %llu %.6f %.6f\n",(unsigned long long)g_ss.queries,(unsigned long long)g_ss.sat,(unsigned long long)g_ss.unsat,(unsigned long long)g_ss.unknown,(unsigned long long)g_ss.cachehits,(unsigned long long)g_ss.badmodel,(unsigned long long)g_ss.dom,(unsigned long long)g_ss.audits,g_ss.time,g_ss.maxtime);
  for(auto&r:g_reach) fprintf(o,"R %s\n",r.c_str()); for(auto&r:g_assertIds) fprintf(o,"A %llu %s\n",(unsigned long long)r.second,r.first.c_str()); for(auto&r:g_errors) fprintf(o,"E %s\n",r.c_str());
  for(auto*f:g_funcs) if(f->executed) fprintf(o,"F %s\n",f->name.c_str());
  for(auto&x:g_samples) fprintf(o,"X %s\n",x.c_str());
  for(auto&v:g_viols){ std::string l=v.loc; for(auto&c:l) if(c=='\n') c='\x01'; fprintf(o,"V %s\t%s\t%s\t%s\t%s\n",v.kind.c_str(),v.msg.c_str(),l.c_str(),hex(v.inputs).c_str(),v.names.c_str()); }
  fprintf(o,"END\n"); fflush(o); }
static void resetResult(){ g_st=Stats(); g_ss=SolverStats(); g_reach.clear(); g_assertIds.clear(); g_errors.clear(); g_samples.clear(); g_viols.clear(); for(auto*f:g_funcs) f->executed=false; }
static std::set<std::string> g_fnames;
static void mergeResult(const std::string&path){ std::ifstream in(path); std::string line; bool end=false; while(std::getline(in,line)){ if(line.size()<1) continue; std::istringstream is(line); std::string t; is>>t;
   if(t=="S"){ Stats x; is>>x.paths>>x.killed>>x.insts>>x.forks>>x.asserts>>x.asserts_sym>>x.asserts_solver>>x.asserts_inconcl>>x.maxdepth>>x.symloads; g_st.paths+=x.paths; g_st.killed+=x.killed; g_st.insts+=x.insts; g_st.forks+=x.forks; g_st.asserts+=x.asserts; g_st.asserts_sym+=x.asserts_sym; g_st.asserts_solver+=x.asserts_solver; g_st.asserts_inconcl+=x.asserts_inconcl; g_st.maxdepth=std::max(g_st.maxdepth,x.maxdepth); g_st.symloads+=x.symloads; }
   else if(t=="Q"){ SolverStats x; is>>x.queries>>x.sat>>x.unsat>>x.unknown>>x.cachehits>>x.badmodel>>x.dom>>x.audits>>x.time>>x.maxtime; g_ss.queries+=x.queries; g_ss.sat+=x.sat; g_ss.unsat+=x.unsat; g_ss.unknown+=x.unknown; g_ss.cachehits+=x.cachehits; g_ss.badmodel+=x.badmodel; g_ss.dom+=x.dom; g_ss.audits+=x.audits; g_ss.time+=x.time; g_ss.maxtime=std::max(g_ss.maxtime,x.maxtime); }
   else if(t=="R") g_reach.insert(line.substr(2)); else if(t=="A"){ u64 n; is>>n; std::string r; std::getline(is,r); g_assertIds[r.substr(1)]+=n; } else if(t=="E") g_errors.insert(line.substr(2)); else if(t=="F") g_fnames.insert(line.substr(2)); else if(t=="X"){ g_samples.push_back(line.substr(2)); }
   else if(t=="V"){ std::vector<std::string> p; std::string cur; for(char c:line.substr(2)){ if(c=='\t'){ p.push_back(cur); cur.clear(); } else cur+=c; } p.push_back(cur); if(p.size()>=5){ Viol v; v.kind=p[0]; v.msg=p[1]; v.loc=p[2]; for(auto&c:v.loc) if(c=='\x01') c='\n'; for(size_t i=0;i+1<p[3].size();i+=2) v.inputs.push_back(strtol(p[3].substr(i,2).c_str(),0,16)); v.names=p[4]; std::string loc1=v.loc.substr(0,v.loc.find('\n')); std::string key=v.kind+"|"+v.msg.substr(0,60)+(v.kind=="assert"?"":"|"+loc1); if(!g_violKeys.count("m"+key)){ g_violKeys.insert("m"+key); g_viols.push_back(v);} } }
   else if(t=="END") end=true; }
  if(!end) g_errors.insert("worker process died (out of memory?)"); }

static bool g_died=false;
static bool stopNow(){ return (int)g_viols.size()>=optMaxViol||now()-g_t0>optTime; }
int main(int argc,char**argv){
  g_t0=now(); std::string bc; for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); }; if(a=="--entry") optEntry=nx(); else if(a=="--out") optOut=nx(); else if(a=="--max-inst") optMaxInst=std::stoull(nx()); else if(a=="--time") optTime=std::stod(nx()); else if(a=="--jobs") optJobs=std::stoi(nx()); else if(a=="--max-viol") optMaxViol=std::stoi(nx()); else if(a=="--debug") optDebug=true; else if(a=="--samples") optSamples=std::stoi(nx()); else if(a=="--seed") g_rng=std::stoull(nx())*2654435761ull+1; else if(a=="--audit") optAuditAll=true; else if(a=="--rlimit") g_rlimit=std::stoul(nx()); else bc=a; }
  SMDiagnostic err; g_mod=parseIRFile(bc,err,g_ctx); if(!g_mod) fatal("cannot load "+bc); DL=&g_mod->getDataLayout(); registerBuiltins(); solverInit();
  State*s0=new State(); s0->rg[0].n=0;
  { State&s=*s0; for(auto&g:g_mod->globals()){ u64 sz=g.getValueType()->isSized()? (u64)DL->getTypeAllocSize(g.getValueType()): 8; if(g.isDeclaration()) sz=std::max<u64>(sz,256); std::string*nm=new std::string(g.getName().str()); u64 b=allocObj(s,R_GLOBAL,sz,K_GLOBAL,true,nm->c_str()); g_gaddr[&g]=b; if(*nm=="_ZTVN10__cxxabiv117__class_type_infoE") vt_class=b; if(*nm=="_ZTVN10__cxxabiv120__si_class_type_infoE") vt_si=b; if(*nm=="_ZTVN10__cxxabiv121__vmi_class_type_infoE") vt_vmi=b; }
    for(auto&f:*g_mod) getFunc(&f);
    for(auto&g:g_mod->globals()) if(g.hasInitializer()&&!g.getName().startswith("llvm.")) initConst(s,g_gaddr[&g],g.getInitializer(),0);
    for(auto&g:g_mod->globals()) if(g.isDeclaration()&&g.getName().startswith("_ZTI")){ std::string n=g.getName().substr(4).str(); u64 nb=allocObj(s,R_GLOBAL,n.size()+1,K_GLOBAL,true,"typeinfo name"); for(size_t i=0;i<n.size();i++) storeAt(s,nb,i,1,8,mkV((u8)n[i])); storeAt(s,g_gaddr[&g],8,8,64,mkV(nb)); }
    for(auto&g:g_mod->globals()) if(g.isConstant()&&g.hasInitializer()) wrObj(s,g_gaddr[&g])->kind=K_CONST; }
  auto runOne=[&](State*s){ runState(*s); delete s; };
  bool ctorViol=false; // global constructors
  if(auto*gc=g_mod->getGlobalVariable("llvm.global_ctors")) if(auto*ca=dyn_cast<ConstantArray>(gc->getInitializer())) for(auto&op:ca->operands()){ auto*f=dyn_cast<Function>(cast<Constant>(op)->getAggregateElement(1)->stripPointerCasts()); if(!f) continue; pushFrame(*s0,getFunc(f),nullptr,0,nullptr); runState(*s0); if(!g_viols.empty()){ ctorViol=true; break; } if(!g_errors.empty()||!g_work.empty()) fatal("global constructor failed: "+(g_errors.empty()?std::string(""):*g_errors.begin())); s0->alive=true; s0->ninst=0; }
  if(!ctorViol){ g_st=Stats(); g_samples.clear(); }
  Function*ef=g_mod->getFunction(optEntry); if(!ef||ef->isDeclaration()) fatal("no entry "+optEntry);
  if(!ctorViol){ pushFrame(*s0,getFunc(ef),nullptr,0,nullptr); g_work.push_back(s0); }
  bool par=optJobs>1; size_t target=par? (size_t)optJobs*24: 0; u64 budget=par? 60: ~0ull; double tp=now();
  // sequential / seeding phase
  while(!g_work.empty()&&!stopNow()){ if(par&&(g_work.size()>=target||(now()-tp>1.0&&g_work.size()>=1))) break; (void)budget; State*s; if(par){ s=g_work.front(); g_work.pop_front(); } else { s=g_work.back(); g_work.pop_back(); } runOne(s); }
  if(par&&!g_work.empty()&&!stopNow()){
    std::atomic<u32>*ctr=(std::atomic<u32>*)mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); ctr[0]=0; ctr[1]=0; ctr[2]=0;
    std::vector<State*> pool(g_work.begin(),g_work.end()); g_work.clear(); std::string tmpl=optOut+".w"; std::vector<pid_t> pids; fflush(stdout); fflush(stderr);
    std::string part0=tmpl+"p"; { FILE*o=fopen(part0.c_str(),"w"); dumpResult(o); fclose(o);} 
    // workers take states from the pool; a worker with pending states gives half of them to a new process when a slot is free
    prctl(PR_SET_CHILD_SUBREAPER,1); ctr[3]=optJobs; ctr[4]=optJobs;
    for(int j=0;j<optJobs;j++){ pid_t p=fork(); if(p==0){ resetResult(); int me=j; bool fromPool=true; double lastFork=now();
        for(;;){ if(fromPool){ u32 i=ctr[0]++; if(i>=pool.size()) break; g_work.push_back(pool[i]); } fromPool=true;
          while(!g_work.empty()&&!stopNow()&&ctr[1]<(u32)optMaxViol){ State*s=g_work.back(); g_work.pop_back(); size_t nv=g_viols.size(); runOne(s); if(g_viols.size()>nv) ctr[1]+=1;
            if(g_work.size()>=2&&now()-lastFork>0.1){ u32 act=ctr[3]; if(act<(u32)optJobs&&ctr[3].compare_exchange_strong(act,act+1)){ lastFork=now(); int id=(int)(ctr[4]++); pid_t q=fork(); size_t h=g_work.size()/2;
                if(q==0){ resetResult(); me=id; g_work.erase(g_work.begin()+h,g_work.end()); } else if(q<0){ ctr[3]-=1; g_errors.insert("fork failed"); } else g_work.erase(g_work.begin(),g_work.begin()+h); } } }
          if(!g_work.empty()){ ctr[2]=1; if(now()-g_t0>optTime) g_errors.insert("time limit"); break; } }
        FILE*o=fopen((tmpl+std::to_string(me)).c_str(),"w"); dumpResult(o); fclose(o); ctr[3]-=1; _exit(0); } pids.push_back(p); }
    for(;;){ int st; pid_t p=wait(&st); if(p<0){ if(errno==EINTR) continue; break; } if(!WIFEXITED(st)||WEXITSTATUS(st)) g_died=true; }
    resetResult(); g_violKeys.clear(); mergeResult(part0); unlink(part0.c_str()); for(u32 j=0;j<ctr[4];j++){ std::string p=tmpl+std::to_string(j); if(access(p.c_str(),R_OK)) g_died=true; mergeResult(p); unlink(p.c_str()); } if(g_died) g_errors.insert("worker process died");
    if(ctr[2]&&g_viols.empty()&&g_errors.empty()) g_errors.insert("incomplete");
  } else { for(auto*f:g_funcs) if(f->executed) g_fnames.insert(f->name); if(!g_work.empty()&&now()-g_t0>optTime) g_errors.insert("time limit"); }
  bool complete=g_errors.empty()&&(g_viols.empty()||(int)g_viols.size()<optMaxViol);
  FILE*o= optOut.empty()? stdout: fopen(optOut.c_str(),"w");
  fprintf(o,"{\"entry\":\"%s\",\"complete\":%s,\"paths\":%llu,\"killed\":%llu,\"insts\":%llu,\"forks\":%llu,\"maxdepth\":%llu,\"asserts\":%llu,\"asserts_symbolic\":%llu,\"asserts_by_solver\":%llu,\"asserts_inconclusive\":%llu,\"symbolic_loads\":%llu,",optEntry.c_str(),complete?"true":"false",(unsigned long long)g_st.paths,(unsigned long long)g_st.killed,(unsigned long long)g_st.insts,(unsigned long long)g_st.forks,(unsigned long long)g_st.maxdepth,(unsigned long long)g_st.asserts,(unsigned long long)g_st.asserts_sym,(unsigned long long)g_st.asserts_solver,(unsigned long long)g_st.asserts_inconcl,(unsigned long long)g_st.symloads);
  fprintf(o,"\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"bad_models\":%llu,\"domain_decisions\":%llu,\"audits\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"wall_s\":%.3f,",(unsigned long long)g_ss.queries,(unsigned long long)g_ss.sat,(unsigned long long)g_ss.unsat,(unsigned long long)g_ss.unknown,(unsigned long long)g_ss.cachehits,(unsigned long long)g_ss.badmodel,(unsigned long long)g_ss.dom,(unsigned long long)g_ss.audits,g_ss.time,g_ss.maxtime,now()-g_t0);
  auto list=[&](const char*n,auto&c,auto fn){ fprintf(o,"\"%s\":[",n); bool first=true; for(auto&x:c){ fprintf(o,"%s%s",first?"":",",fn(x).c_str()); first=false; } fprintf(o,"],"); };
  auto q=[&](const std::string&x){ return "\""+jesc(x)+"\""; };
  list("reach",g_reach,q); list("errors",g_errors,q); list("samples",g_samples,q); list("assert_ids",g_assertIds,[&](auto&p){ return "["+q(p.first)+","+std::to_string(p.second)+"]"; });
  list("functions",g_fnames,[&](const std::string&n){ return q(demangle(n)); });
  fprintf(o,"\"violations\":["); bool first=true; for(auto&v:g_viols){ fprintf(o,"%s{\"kind\":%s,\"msg\":%s,\"loc\":%s,\"inputs\":\"%s\",\"names\":%s}",first?"":",",q(v.kind).c_str(),q(v.msg).c_str(),q(v.loc).c_str(),hex(v.inputs).c_str(),q(v.names).c_str()); first=false; } fprintf(o,"]}\n");
  fflush(o); _exit(0); }
