#include "expr.h"
std::unordered_map<ExprKey, Expr*, ExprKeyHash> g_exprs;
std::vector<Expr*> g_exprlist;
static std::map<std::vector<u32>, VarSet*> g_vsets;
static std::unordered_map<u64, const VarSet*> g_vsunion;
u64 g_epoch = 1;

static const VarSet* internVS(std::vector<u32>&& v){
  auto it=g_vsets.find(v); if(it!=g_vsets.end()) return it->second;
  VarSet* s=new VarSet; s->v=v; s->id=g_vsets.size(); g_vsets.emplace(std::move(v),s); return s; }
static const VarSet* vsEmpty(){ static const VarSet* e=internVS({}); return e; }
static const VarSet* vsUnion(const VarSet*x,const VarSet*y){
  if(x==y||y->v.empty()) return x; if(x->v.empty()) return y;
  if(x->id>y->id) std::swap(x,y);
  u64 key=((u64)x->id<<32)|y->id; auto it=g_vsunion.find(key); if(it!=g_vsunion.end()) return it->second;
  std::vector<u32> r; r.reserve(x->v.size()+y->v.size());
  std::set_union(x->v.begin(),x->v.end(),y->v.begin(),y->v.end(),std::back_inserter(r));
  const VarSet* s=internVS(std::move(r)); g_vsunion[key]=s; return s; }

static unsigned nbits(u128 v){ unsigned n=0; while(v){n++;v>>=1;} return n; }
static inline unsigned lowZeros(E e){ return e->lz; }
static inline unsigned activeBits(E e){ return e->ab; }
static unsigned compLZ(E e){
  switch(e->op){ case E_CONST: { if(e->k==0) return e->w; unsigned n=0; while(!((e->k>>n)&1)) n++; return n; }
   case E_SHL: if(isC(e->b)) return std::min<unsigned>(e->w,lowZeros(e->a)+(unsigned)std::min<u128>(e->b->k,e->w)); return 0;
   case E_MUL: return std::min<unsigned>(e->w,lowZeros(e->a)+lowZeros(e->b));
   case E_CONCAT: { unsigned l=lowZeros(e->b); return l==e->b->w? l+lowZeros(e->a): l; }
   case E_ZEXT: { unsigned l=lowZeros(e->a); return l==e->a->w? e->w: l; }
   case E_ADD: case E_OR: return std::min(lowZeros(e->a),lowZeros(e->b));
   default: return 0; } }
static unsigned compAB(E e){
  switch(e->op){ case E_CONST: return nbits(e->k);
   case E_ZEXT: return activeBits(e->a);
   case E_CONCAT: { unsigned h=activeBits(e->a); return h? h+e->b->w: activeBits(e->b); }
   case E_AND: return std::min(activeBits(e->a),activeBits(e->b));
   case E_OR: case E_XOR: return std::max(activeBits(e->a),activeBits(e->b));
   case E_LSHR: return activeBits(e->a);
   case E_UDIV: if(isC(e->b)&&e->b->k){ unsigned n=activeBits(e->a); unsigned d=activeBits(e->b)-1; return n>d? n-d : 0; } return e->w;
   case E_UREM: if(isC(e->b)&&e->b->k) return std::min(activeBits(e->a),nbits(e->b->k-1)); return e->w;
   case E_MUL: return std::min<unsigned>(e->w,activeBits(e->a)+activeBits(e->b));
   case E_ADD: return std::min<unsigned>(e->w,std::max(activeBits(e->a),activeBits(e->b))+1);
   case E_ITE: return std::max(activeBits(e->b),activeBits(e->c));
   case E_TABLE: { const Table*t=(const Table*)(uintptr_t)e->k; unsigned n=0; for(u128 v:t->v) n=std::max(n,nbits(v)); return n; }
   default: return e->w; } }
E mkraw(u8 op,u8 w,u16 aux,E a,E b,E c,u128 k){
  ExprKey key{op,w,aux,a,b,c,k};
  auto it=g_exprs.find(key); if(it!=g_exprs.end()) return it->second;
  Expr* e=new Expr; e->op=op;e->w=w;e->aux=aux;e->a=a;e->b=b;e->c=c;e->k=k; e->id=g_exprlist.size();
  e->ev_epoch=0;e->tt=nullptr;e->z=nullptr;e->iv_epoch=0;
  const VarSet* vs=vsEmpty();
  if(op==E_VAR) vs=internVS({(u32)k});
  else { if(a) vs=vsUnion(vs,a->vs); if(b) vs=vsUnion(vs,b->vs); if(c) vs=vsUnion(vs,c->vs); }
  e->ab=compAB(e); e->lz=compLZ(e);
  e->vs=vs; g_exprs.emplace(key,e); g_exprlist.push_back(e); return e; }

E mkConst(u128 v, unsigned w){ return mkraw(E_CONST,w,0,0,0,0,v&maskw(w)); }
E mkVar(u32 i){ static std::vector<E> cache; while(cache.size()<=i) cache.push_back(mkraw(E_VAR,8,0,0,0,0,cache.size())); return cache[i]; }

static std::map<std::pair<u8,std::vector<u128>>,Table*> g_tables;
const Table* internTable(u8 w, std::vector<u128>&& v){
  auto key=std::make_pair(w,v); auto it=g_tables.find(key); if(it!=g_tables.end()) return it->second;
  Table* t=new Table; t->w=w; t->v=std::move(v); t->id=g_tables.size(); g_tables.emplace(std::move(key),t); return t; }
E mkTable(const Table* t, E idx){
  if(isC(idx)) return mkConst(idx->k<t->v.size()? t->v[(size_t)idx->k]:0, t->w);
  return mkraw(E_TABLE,t->w,0,idx,0,0,(u128)(uintptr_t)t); }

u128 binEval(u8 op, unsigned w, u128 a, u128 b){
  u128 m=maskw(w); a&=m;b&=m;
  switch(op){
   case E_ADD: return (a+b)&m; case E_SUB: return (a-b)&m; case E_MUL: return (a*b)&m;
   case E_UDIV: return b? a/b : m; case E_UREM: return b? a%b : a;
   case E_SDIV: { i128 x=sx(a,w),y=sx(b,w); if(!y) return x<0?1:m; if(y==-1) return (u128)(-x)&m; return (u128)(x/y)&m; }
   case E_SREM: { i128 x=sx(a,w),y=sx(b,w); if(!y) return a; if(y==-1) return 0; return (u128)(x%y)&m; }
   case E_AND: return a&b; case E_OR: return a|b; case E_XOR: return a^b;
   case E_SHL: return b>=w?0:(a<<(unsigned)b)&m; case E_LSHR: return b>=w?0:a>>(unsigned)b;
   case E_ASHR: { i128 x=sx(a,w); return (u128)(x>>(unsigned)(b>=w?w-1:b))&m; }
   case E_EQ: return a==b; case E_ULT: return a<b; case E_ULE: return a<=b;
   case E_SLT: return sx(a,w)<sx(b,w); case E_SLE: return sx(a,w)<=sx(b,w);
  } abort(); }

static double bd(u128 v){ u64 x=(u64)v; double d; memcpy(&d,&x,8); return d; }
static float bf(u128 v){ u32 x=(u32)v; float d; memcpy(&d,&x,4); return d; }
static u128 db(double d){ u64 x; memcpy(&x,&d,8); return x; }
static u128 fb(float d){ u32 x; memcpy(&x,&d,4); return x; }
template<class T> static bool fcmp(unsigned p,T a,T b){
  bool un=std::isnan(a)||std::isnan(b);
  switch(p){ case 0: return false; case 1: return a==b; case 2: return a>b; case 3: return a>=b; case 4: return a<b; case 5: return a<=b;
   case 6: return !un&&a!=b; case 7: return !un; case 8: return un; case 9: return un||a==b; case 10: return un||a>b; case 11: return un||a>=b;
   case 12: return un||a<b; case 13: return un||a<=b; case 14: return un||a!=b; case 15: return true; } abort(); }
u128 fpEval(u8 op,u8 w,u16 aux,unsigned aw,u128 a,u128 b){
  if(aw==64||op==E_SI2F||op==E_UI2F){
   switch(op){ case E_FADD: return db(bd(a)+bd(b)); case E_FSUB: return db(bd(a)-bd(b)); case E_FMUL: return db(bd(a)*bd(b)); case E_FDIV: return db(bd(a)/bd(b));
    case E_FCMP: return fcmp(aux,bd(a),bd(b));
    case E_FCVT: return w==64? a : fb((float)bd(a));
    case E_SI2F: return w==64? db((double)sx(a,aw)) : fb((float)sx(a,aw));
    case E_UI2F: return w==64? db((double)(a&maskw(aw))) : fb((float)(a&maskw(aw)));
    case E_FFLOOR: { double d=bd(a); d= aux==0? floor(d): aux==1? ceil(d): aux==2? trunc(d): aux==3? rint(d): round(d); return db(d); }
    case E_F2SI: { double d=bd(a); if(!(d>-ldexp(1,w-1)-1 && d<ldexp(1,w-1))) return (u128)1<<(w-1); return (u128)(i128)d & maskw(w); }
    case E_F2UI: { double d=bd(a); if(!(d>-1 && d<ldexp(1,w))) return 0; return (u128)d & maskw(w); } }
  } else {
   switch(op){ case E_FADD: return fb(bf(a)+bf(b)); case E_FSUB: return fb(bf(a)-bf(b)); case E_FMUL: return fb(bf(a)*bf(b)); case E_FDIV: return fb(bf(a)/bf(b));
    case E_FCMP: return fcmp(aux,bf(a),bf(b));
    case E_FCVT: return w==32? a : db((double)bf(a));
    case E_FFLOOR: { float d=bf(a); d= aux==0? floorf(d): aux==1? ceilf(d): aux==2? truncf(d): aux==3? rintf(d): roundf(d); return fb(d); }
    case E_F2SI: { double d=bf(a); if(!(d>-ldexp(1,w-1)-1 && d<ldexp(1,w-1))) return (u128)1<<(w-1); return (u128)(i128)d & maskw(w); }
    case E_F2UI: { double d=bf(a); if(!(d>-1 && d<ldexp(1,w))) return 0; return (u128)d & maskw(w); } }
  } abort(); }

E mkF(u8 op,u8 w,u16 aux,E a,E b){
  if(isC(a)&&(!b||isC(b))) return mkConst(fpEval(op,w,aux,a->w,a->k,b?b->k:0),w);
  if(op==E_FCVT&&a->w==w) return a;
  if((op==E_SI2F||op==E_UI2F)&&a->op==E_ZEXT&&op==E_SI2F) return mkF(E_UI2F,w,0,a->a,nullptr);
  if(op==E_UI2F&&a->op==E_ZEXT) return mkF(E_UI2F,w,0,a->a,nullptr);
  if(op==E_SI2F&&a->op==E_SEXT) return mkF(E_SI2F,w,0,a->a,nullptr);
  return mkraw(op,w,aux,a,b,nullptr,0); }

E mkNot(E a){
  if(isC(a)) return mkConst(!a->k,1);
  switch(a->op){
    case E_ULT: return mkUle(a->b,a->a); case E_ULE: return mkUlt(a->b,a->a);
    case E_SLT: return mkSle(a->b,a->a); case E_SLE: return mkSlt(a->b,a->a);
    case E_XOR: if(a->w==1&&isC(a->b)) return a->a; break;
    default: break; }
  return mkraw(E_XOR,1,0,a,mkConst(1,1),nullptr,0); }
E mkIte(E c, E a, E b){
  if(isC(c)) return c->k? a:b;
  if(a==b) return a;
  if(a->w==1){
    if(isC(a)&&isC(b)) return a->k? c : mkNot(c);
    if(isC(a)) return a->k? mkOr1(c,b) : mkAnd1(mkNot(c),b);
    if(isC(b)) return b->k? mkOr1(mkNot(c),a) : mkAnd1(c,a);
  }
  if(c->op==E_XOR&&c->w==1&&isC(c->b,1)) return mkIte(c->a,b,a);
  if(a->op==E_ITE&&a->a==c) a=a->b;
  if(b->op==E_ITE&&b->a==c) b=b->c;
  if(a==b) return a;
  return mkraw(E_ITE,a->w,0,c,a,b,0); }
E mkZext(E a, unsigned w){
  if(a->w==w) return a; if(isC(a)) return mkConst(a->k,w);
  if(a->op==E_ZEXT) return mkraw(E_ZEXT,w,0,a->a,0,0,0);
  return mkraw(E_ZEXT,w,0,a,0,0,0); }
E mkSext(E a, unsigned w){
  if(a->w==w) return a; if(isC(a)) return mkConst((u128)sx(a->k,a->w),w);
  if(a->op==E_ZEXT) return mkZext(a->a,w);
  if(a->op==E_SEXT) return mkraw(E_SEXT,w,0,a->a,0,0,0);
  return mkraw(E_SEXT,w,0,a,0,0,0); }
E mkExtract(E a, unsigned lo, unsigned w){
  if(lo==0&&a->w==w) return a;
  switch(a->op){
   case E_CONST: return mkConst(a->k>>lo,w);
   case E_EXTRACT: return mkExtract(a->a,lo+(unsigned)a->k,w);
   case E_ZEXT: { unsigned iw=a->a->w; if(lo>=iw) return mkConst(0,w); if(lo+w<=iw) return mkExtract(a->a,lo,w);
      return mkZext(mkExtract(a->a,lo,iw-lo),w); }
   case E_SEXT: { unsigned iw=a->a->w; if(lo+w<=iw) return mkExtract(a->a,lo,w); if(lo<iw) return mkSext(mkExtract(a->a,lo,iw-lo),w); break; }
   case E_CONCAT: { unsigned lw=a->b->w; if(lo>=lw) return mkExtract(a->a,lo-lw,w); if(lo+w<=lw) return mkExtract(a->b,lo,w);
      return mkConcat(mkExtract(a->a,0,lo+w-lw),mkExtract(a->b,lo,lw-lo)); }
   case E_AND: case E_OR: case E_XOR: return mkBin(a->op,mkExtract(a->a,lo,w),mkExtract(a->b,lo,w));
   case E_SHL: if(isC(a->b)){ u64 s=(u64)a->b->k; if(s>=a->w) return mkConst(0,w); if(lo>=s) return mkExtract(a->a,lo-s,w); if(lo+w<=s) return mkConst(0,w);
       return mkConcat(mkExtract(a->a,0,lo+w-s),mkConst(0,s-lo)); } break;
   case E_LSHR: if(isC(a->b)){ u64 s=(u64)a->b->k; if(lo+s+w<=a->w) return mkExtract(a->a,lo+s,w); if(lo+s>=a->w) return mkConst(0,w);
       return mkZext(mkExtract(a->a,lo+s,a->w-lo-s),w); } break;
   case E_ADD: case E_SUB: case E_MUL:
      if(lo==0 && (isC(a->b)||isC(a->a)||a->a->op==E_ZEXT||a->a->op==E_SEXT||a->b->op==E_ZEXT||a->b->op==E_SEXT))
        return mkBin(a->op,mkExtract(a->a,0,w),mkExtract(a->b,0,w)); break;
   case E_ITE: if((isC(a->b)||isC(a->c))||a->b->op==E_ZEXT||a->c->op==E_ZEXT||a->b->op==E_CONCAT||a->c->op==E_CONCAT) return mkIte(a->a,mkExtract(a->b,lo,w),mkExtract(a->c,lo,w)); break;
   default: break; }
  return mkraw(E_EXTRACT,w,0,a,0,0,lo); }
static E rawExtract(E a,unsigned lo,unsigned w){ if(lo==0&&a->w==w) return a; switch(a->op){ case E_CONST: case E_ZEXT: case E_SEXT: case E_CONCAT: case E_EXTRACT: return mkExtract(a,lo,w); default: return mkraw(E_EXTRACT,w,0,a,0,0,lo); } }
E mkConcat(E hi, E lo){
  unsigned w=hi->w+lo->w;
  if(isC(hi)&&isC(lo)) return mkConst((hi->k<<lo->w)|lo->k,w);
  if(isC(hi,0)) return mkZext(lo,w);
  if(hi->op==E_ZEXT) return mkZext(mkConcat(hi->a,lo),w);
  if(hi->op==E_EXTRACT&&lo->op==E_EXTRACT&&hi->a==lo->a&&hi->k==lo->k+lo->w) return rawExtract(lo->a,(unsigned)lo->k,w);
  if(hi->op==E_EXTRACT&&lo==hi->a&&false) return nullptr;
  // extract(e, k, n) ++ e[0..k) where low part is whole var handled through EXTRACT normal form
  if(hi->op==E_EXTRACT&&lo->op==E_CONCAT&&lo->a->op==E_EXTRACT&&lo->a->a==hi->a&&hi->k==lo->a->k+lo->a->w)
    return mkConcat(rawExtract(hi->a,(unsigned)lo->a->k,hi->w+lo->a->w),lo->b);
  // right-assoc normal form
  if(hi->op==E_CONCAT) return mkConcat(hi->a,mkConcat(hi->b,lo));
  return mkraw(E_CONCAT,w,0,hi,lo,0,0); }

E mkAnd1(E a,E b){
  if(isC(a)) return a->k? b: a; if(isC(b)) return b->k? a: b; if(a==b) return a;
  if(mkNot(a)==b) return mkConst(0,1);
  if(a->id>b->id) std::swap(a,b);
  return mkraw(E_AND,1,0,a,b,0,0); }
E mkOr1(E a,E b){
  if(isC(a)) return a->k? a: b; if(isC(b)) return b->k? b: a; if(a==b) return a;
  if(mkNot(a)==b) return mkConst(1,1);
  if(a->id>b->id) std::swap(a,b);
  return mkraw(E_OR,1,0,a,b,0,0); }

E mkBin(u8 op, E a, E b){
  if(a->w!=b->w){ fprintf(stderr,"width mismatch op %d: %d %d\n",op,a->w,b->w); abort(); }
  switch(op){ case E_ADD: return mkAdd(a,b); case E_SUB: return mkSub(a,b); case E_MUL: return mkMul(a,b);
   case E_AND: return mkAnd(a,b); case E_OR: return mkOr(a,b); case E_XOR: return mkXor(a,b);
   case E_SHL: return mkShl(a,b); case E_LSHR: return mkLshr(a,b); case E_ASHR: return mkAshr(a,b);
   case E_EQ: return mkEq(a,b); case E_ULT: return mkUlt(a,b); case E_ULE: return mkUle(a,b); case E_SLT: return mkSlt(a,b); case E_SLE: return mkSle(a,b); }
  unsigned w=a->w;
  if(isC(a)&&isC(b)) return mkConst(binEval(op,w,a->k,b->k),w);
  if(isC(b,1)){ if(op==E_UDIV||op==E_SDIV) return a; return mkConst(0,w); }
  if(isC(b)&&(op==E_UDIV||op==E_UREM)&&b->k){
    u128 k=b->k; if((k&(k-1))==0){ unsigned s=0; while(k>1){k>>=1;s++;} return op==E_UDIV? mkLshr(a,mkConst(s,w)) : mkAnd(a,mkConst(b->k-1,w)); }
    unsigned ab=activeBits(a); if(ab<w&&ab>0){ unsigned nb=std::max(ab,activeBits(b)); if(activeBits(b)>ab) return op==E_UDIV? mkConst(0,w): a;
      if(nb<w&&nb<=w) { E x=mkExtract(a,0,nb), y=mkConst(b->k,nb); if(x->w<w) return mkZext(mkraw(op,nb,0,x,y,0,0),w); } }
    if(op==E_UDIV&&a->op==E_UDIV&&isC(a->b)&&a->b->k*b->k<=maskw(w)) return mkBin(E_UDIV,a->a,mkConst(a->b->k*b->k,w));
  }
  if((op==E_SDIV||op==E_SREM)&&isC(b)&&!(b->k>>(w-1))&&activeBits(a)<w) return mkBin(op==E_SDIV?E_UDIV:E_UREM,a,b);
  return mkraw(op,w,0,a,b,0,0); }

E mkAdd(E a,E b){ unsigned w=a->w;
  if(w==1) return mkXor(a,b);
  if(isC(a)&&isC(b)) return mkConst(a->k+b->k,w);
  if(isC(a)) std::swap(a,b);
  if(isC(b)){ if(!b->k) return a;
    if(a->op==E_ADD&&isC(a->b)) return mkAdd(a->a,mkConst(a->b->k+b->k,w));
    if(a->op==E_SUB&&isC(a->a)) return mkSub(mkConst(a->a->k+b->k,w),a->b);
    if(a->op==E_ITE&&isC(a->b)&&isC(a->c)) return mkIte(a->a,mkConst(a->b->k+b->k,w),mkConst(a->c->k+b->k,w));
    return mkraw(E_ADD,w,0,a,b,0,0); }
  if(a->op==E_ADD&&isC(a->b)) return mkAdd(mkAdd(a->a,b),a->b);
  if(b->op==E_ADD&&isC(b->b)) return mkAdd(mkAdd(a,b->a),b->b);
  if(a->op==E_SUB&&a->b==b) return a->a;
  if(b->op==E_SUB&&b->b==a) return b->a;
  // disjoint bits: or-like
  if(activeBits(a)<=lowZeros(b)||activeBits(b)<=lowZeros(a)) return mkOr(a,b);
  if(a->id>b->id) std::swap(a,b);
  return mkraw(E_ADD,w,0,a,b,0,0); }
E mkSub(E a,E b){ unsigned w=a->w;
  if(w==1) return mkXor(a,b);
  if(a==b) return mkConst(0,w);
  if(isC(b)) return mkAdd(a,mkConst((~b->k)+1,w));
  if(a->op==E_ADD&&isC(a->b)) return mkAdd(mkSub(a->a,b),a->b);
  if(b->op==E_ADD&&isC(b->b)) return mkAdd(mkSub(a,b->a),mkConst((~b->b->k)+1,w));
  if(a->op==E_ADD){ if(a->a==b) return a->b; if(a->b==b) return a->a; }
  if(b->op==E_SUB&&isC(b->a)&&isC(a)) return mkAdd(b->b,mkConst(a->k-b->a->k,w));
  return mkraw(E_SUB,w,0,a,b,0,0); }
E mkMul(E a,E b){ unsigned w=a->w;
  if(w==1) return mkAnd1(a,b);
  if(isC(a)&&isC(b)) return mkConst(a->k*b->k,w);
  if(isC(a)) std::swap(a,b);
  if(isC(b)){ if(!b->k) return b; if(b->k==1) return a;
    u128 k=b->k; if((k&(k-1))==0){ unsigned s=0; while(k>1){k>>=1;s++;} return mkShl(a,mkConst(s,w)); }
    if(a->op==E_MUL&&isC(a->b)) return mkMul(a->a,mkConst(a->b->k*b->k,w));
    if(a->op==E_SHL&&isC(a->b)&&a->b->k<w) return mkMul(a->a,mkConst(b->k<<(unsigned)a->b->k,w));
    if(a->op==E_ADD&&isC(a->b)) return mkAdd(mkMul(a->a,b),mkConst(a->b->k*b->k,w));
    if(a->op==E_ITE&&isC(a->b)&&isC(a->c)) return mkIte(a->a,mkConst(a->b->k*b->k,w),mkConst(a->c->k*b->k,w));
    return mkraw(E_MUL,w,0,a,b,0,0); }
  if(a->id>b->id) std::swap(a,b);
  return mkraw(E_MUL,w,0,a,b,0,0); }
E mkAnd(E a,E b){ unsigned w=a->w;
  if(w==1) return mkAnd1(a,b);
  if(isC(a)&&isC(b)) return mkConst(a->k&b->k,w);
  if(isC(a)) std::swap(a,b);
  if(a==b) return a;
  if(isC(b)){ u128 k=b->k; if(!k) return b; if(k==maskw(w)) return a;
    if((k&(k+1))==0){ unsigned n=0; while(k){n++;k>>=1;} if(activeBits(a)<=n) return a; return mkZext(mkExtract(a,0,n),w); }
    { unsigned lz=lowZeros(b), n=activeBits(b); u128 kk=k>>lz; if(lz&&(kk&(kk+1))==0) return mkShl(mkZext(mkExtract(a,lz,n-lz),w),mkConst(lz,w)); }
    if(a->op==E_AND&&isC(a->b)) return mkAnd(a->a,mkConst(a->b->k&k,w));
    if(a->op==E_ZEXT){ return mkZext(mkAnd(a->a,mkConst(k,a->a->w)),w); }
    if(a->op==E_CONCAT){ return mkConcat(mkAnd(a->a,mkConst(k>>a->b->w,a->a->w)),mkAnd(a->b,mkConst(k,a->b->w))); }
    if(a->op==E_ITE&&isC(a->b)&&isC(a->c)) return mkIte(a->a,mkConst(a->b->k&k,w),mkConst(a->c->k&k,w));
    if(a->op==E_OR&&isC(a->b)) return mkOr(mkAnd(a->a,b),mkConst(a->b->k&k,w));
    return mkraw(E_AND,w,0,a,b,0,0); }
  if(a->op==E_ZEXT&&b->op==E_ZEXT&&a->a->w==b->a->w) return mkZext(mkAnd(a->a,b->a),w);
  if(a->id>b->id) std::swap(a,b);
  return mkraw(E_AND,w,0,a,b,0,0); }
E mkOr(E a,E b){ unsigned w=a->w;
  if(w==1) return mkOr1(a,b);
  if(isC(a)&&isC(b)) return mkConst(a->k|b->k,w);
  if(isC(a)) std::swap(a,b);
  if(a==b) return a;
  if(isC(b)){ if(!b->k) return a; if(b->k==maskw(w)) return b;
    if(a->op==E_OR&&isC(a->b)) return mkOr(a->a,mkConst(a->b->k|b->k,w));
    if(a->op==E_ITE&&isC(a->b)&&isC(a->c)) return mkIte(a->a,mkConst(a->b->k|b->k,w),mkConst(a->c->k|b->k,w));
    if(a->op==E_CONCAT) return mkConcat(mkOr(a->a,mkConst(b->k>>a->b->w,a->a->w)),mkOr(a->b,mkConst(b->k,a->b->w)));
    if(a->op==E_ZEXT&&a->a->w>=8) return mkConcat(mkConst(b->k>>a->a->w,w-a->a->w),mkOr(a->a,mkConst(b->k,a->a->w)));
    return mkraw(E_OR,w,0,a,b,0,0); }
  // disjoint halves -> concat
  { unsigned la=lowZeros(a), lb=lowZeros(b), aa=activeBits(a), ab=activeBits(b);
    if(la>=ab&&ab<w&&ab>0&&la<w) { unsigned s=la; return mkConcat(mkExtract(a,s,w-s),mkExtract(b,0,s)); }
    if(lb>=aa&&aa<w&&aa>0&&lb<w) { unsigned s=lb; return mkConcat(mkExtract(b,s,w-s),mkExtract(a,0,s)); } }
  if(a->op==E_ZEXT&&b->op==E_ZEXT&&a->a->w==b->a->w) return mkZext(mkOr(a->a,b->a),w);
  if(a->id>b->id) std::swap(a,b);
  return mkraw(E_OR,w,0,a,b,0,0); }
E mkXor(E a,E b){ unsigned w=a->w;
  if(isC(a)&&isC(b)) return mkConst(a->k^b->k,w);
  if(isC(a)) std::swap(a,b);
  if(a==b) return mkConst(0,w);
  if(isC(b)){ if(!b->k) return a;
    if(w==1) return mkNot(a);
    if(a->op==E_XOR&&isC(a->b)) return mkXor(a->a,mkConst(a->b->k^b->k,w));
    if(a->op==E_ITE&&isC(a->b)&&isC(a->c)) return mkIte(a->a,mkConst(a->b->k^b->k,w),mkConst(a->c->k^b->k,w));
    if(a->op==E_ZEXT&&activeBits(b)<=a->a->w) return mkZext(mkXor(a->a,mkConst(b->k,a->a->w)),w);
    return mkraw(E_XOR,w,0,a,b,0,0); }
  if(w==1){ if(b->op==E_XOR&&isC(b->b)) return mkNot(mkXor(a,b->a)); if(a->op==E_XOR&&isC(a->b)) return mkNot(mkXor(a->a,b)); }
  if(a->op==E_ZEXT&&b->op==E_ZEXT&&a->a->w==b->a->w) return mkZext(mkXor(a->a,b->a),w);
  if(a->id>b->id) std::swap(a,b);
  return mkraw(E_XOR,w,0,a,b,0,0); }
E mkShl(E a,E b){ unsigned w=a->w;
  if(isC(a)&&isC(b)) return mkConst(binEval(E_SHL,w,a->k,b->k),w);
  if(isC(b)){ if(!b->k) return a; if(b->k>=w) return mkConst(0,w); unsigned s=(unsigned)b->k; 
    return mkConcat(mkExtract(a,0,w-s),mkConst(0,s)); }
  if(isC(a,0)) return a;
  return mkraw(E_SHL,w,0,a,b,0,0); }
E mkLshr(E a,E b){ unsigned w=a->w;
  if(isC(a)&&isC(b)) return mkConst(binEval(E_LSHR,w,a->k,b->k),w);
  if(isC(b)){ if(!b->k) return a; if(b->k>=w) return mkConst(0,w); unsigned s=(unsigned)b->k; return mkZext(mkExtract(a,s,w-s),w); }
  if(isC(a,0)) return a;
  return mkraw(E_LSHR,w,0,a,b,0,0); }
E mkAshr(E a,E b){ unsigned w=a->w;
  if(isC(a)&&isC(b)) return mkConst(binEval(E_ASHR,w,a->k,b->k),w);
  if(isC(b)){ if(!b->k) return a; unsigned s=(unsigned)std::min<u128>(b->k,w-1); return mkSext(mkExtract(a,s,w-s),w); }
  if(isC(a,0)) return a;
  return mkraw(E_ASHR,w,0,a,b,0,0); }
E mkEq(E a,E b){ unsigned w=a->w;
  if(a==b) return mkConst(1,1);
  if(isC(a)&&isC(b)) return mkConst(a->k==b->k,1);
  if(isC(a)) std::swap(a,b);
  if(w==1){ if(isC(b)) return b->k? a: mkNot(a); return mkNot(mkXor(a,b)); }
  if(isC(b)){ u128 k=b->k;
    switch(a->op){
     case E_ZEXT: if(k>>a->a->w) return mkConst(0,1); return mkEq(a->a,mkConst(k,a->a->w));
     case E_SEXT: { E t=mkConst(k,a->a->w); if(((u128)sx(t->k,t->w)&maskw(w))!=k) return mkConst(0,1); return mkEq(a->a,t); }
     case E_ADD: if(isC(a->b)) return mkEq(a->a,mkConst(k-a->b->k,w)); break;
     case E_SUB: if(isC(a->a)) return mkEq(a->b,mkConst(a->a->k-k,w)); if(k==0) return mkEq(a->a,a->b); break;
     case E_XOR: if(isC(a->b)) return mkEq(a->a,mkConst(a->b->k^k,w)); if(k==0) return mkEq(a->a,a->b); break;
     case E_CONCAT: return mkAnd1(mkEq(a->a,mkConst(k>>a->b->w,a->a->w)),mkEq(a->b,mkConst(k,a->b->w)));
     case E_ITE: if(isC(a->b)||isC(a->c)) return mkIte(a->a,mkEq(a->b,b),mkEq(a->c,b)); break;
     case E_OR: if(k==0) return mkAnd1(mkEq(a->a,b),mkEq(a->b,b)); if(isC(a->b)&&(a->b->k&~k)) return mkConst(0,1); break;
     case E_AND: if(isC(a->b)&&(k&~a->b->k)) return mkConst(0,1); break;
     default: break; }
    return mkraw(E_EQ,1,0,a,b,0,0); }
  if(a->op==E_ZEXT&&b->op==E_ZEXT){ unsigned m=std::max(a->a->w,b->a->w); if(m<w) return mkEq(mkZext(a->a,m),mkZext(b->a,m)); }
  if(a->op==E_SEXT&&b->op==E_SEXT&&a->a->w==b->a->w) return mkEq(a->a,b->a);
  if(a->op==E_ADD&&b->op==E_ADD){ if(a->b==b->b) return mkEq(a->a,b->a); if(a->a==b->a) return mkEq(a->b,b->b);
     if(isC(a->b)&&isC(b->b)) return mkEq(a->a,mkAdd(b->a,mkConst(b->b->k-a->b->k,w))); }
  if(a->op==E_CONCAT&&b->op==E_CONCAT&&a->a->w==b->a->w) return mkAnd1(mkEq(a->a,b->a),mkEq(a->b,b->b));
  if(a->id>b->id) std::swap(a,b);
  return mkraw(E_EQ,1,0,a,b,0,0); }
E mkNe(E a,E b){ return mkNot(mkEq(a,b)); }
E mkUlt(E a,E b){ unsigned w=a->w;
  if(a==b) return mkConst(0,1);
  if(isC(a)&&isC(b)) return mkConst(a->k<b->k,1);
  if(w==1) return mkAnd1(mkNot(a),b);
  if(isC(b)){ if(b->k==0) return mkConst(0,1); if(b->k==1) return mkEq(a,mkConst(0,w)); if(b->k==maskw(w)) return mkNe(a,b);
    if(a->op==E_ZEXT){ if(b->k>maskw(a->a->w)) return mkConst(1,1); return mkUlt(a->a,mkConst(b->k,a->a->w)); }
    if(activeBits(a)<w&&b->k>maskw(activeBits(a))) return mkConst(1,1);
    if(a->op==E_ITE&&isC(a->b)&&isC(a->c)) return mkIte(a->a,mkUlt(a->b,b),mkUlt(a->c,b));
    if(a->op==E_CONCAT){ unsigned s=lowZeros(b); if(a->b->w<=s) return mkUlt(a->a,mkConst(b->k>>a->b->w,a->a->w)); }
    return mkraw(E_ULT,1,0,a,b,0,0); }
  if(isC(a)){ if(a->k==maskw(w)) return mkConst(0,1); if(a->k==0) return mkNe(b,a);
    if(b->op==E_ZEXT){ if(a->k>=maskw(b->a->w)) return mkConst(0,1); return mkUlt(mkConst(a->k,b->a->w),b->a); }
    if(activeBits(b)<w&&a->k>=maskw(activeBits(b))) return mkConst(0,1);
    if(b->op==E_ITE&&isC(b->b)&&isC(b->c)) return mkIte(b->a,mkUlt(a,b->b),mkUlt(a,b->c));
    return mkraw(E_ULT,1,0,a,b,0,0); }
  if(a->op==E_ZEXT&&b->op==E_ZEXT){ unsigned m=std::max(a->a->w,b->a->w); if(m<w) return mkUlt(mkZext(a->a,m),mkZext(b->a,m)); }
  return mkraw(E_ULT,1,0,a,b,0,0); }
E mkUle(E a,E b){ unsigned w=a->w;
  if(a==b) return mkConst(1,1);
  if(isC(a)&&isC(b)) return mkConst(a->k<=b->k,1);
  if(w==1) return mkOr1(mkNot(a),b);
  if(isC(b)){ if(b->k==maskw(w)) return mkConst(1,1); return mkUlt(a,mkConst(b->k+1,w)); }
  if(isC(a)){ if(a->k==0) return mkConst(1,1); return mkUlt(mkConst(a->k-1,w),b); }
  if(a->op==E_ZEXT&&b->op==E_ZEXT){ unsigned m=std::max(a->a->w,b->a->w); if(m<w) return mkUle(mkZext(a->a,m),mkZext(b->a,m)); }
  return mkraw(E_ULE,1,0,a,b,0,0); }
static bool nonneg(E e){ return activeBits(e)<e->w; }
E mkSlt(E a,E b){ unsigned w=a->w;
  if(a==b) return mkConst(0,1);
  if(isC(a)&&isC(b)) return mkConst(sx(a->k,w)<sx(b->k,w),1);
  if(nonneg(a)&&nonneg(b)) return mkUlt(a,b);
  if(w==1) return mkAnd1(a,mkNot(b));
  u128 smin=(u128)1<<(w-1), smax=smin-1;
  if(isC(b)){ if(b->k==smin) return mkConst(0,1); if(sx(b->k,w)<=0&&nonneg(a)) return mkConst(0,1);
    if(b->k==0){ return mkEq(mkExtract(a,w-1,1),mkConst(1,1)); }
    if(a->op==E_SEXT){ unsigned iw=a->a->w; i128 lo=sx((u128)1<<(iw-1),iw), hi=-(lo+1), k=sx(b->k,w); if(k>hi) return mkConst(1,1); if(k<=lo) return mkConst(0,1); return mkSlt(a->a,mkConst((u128)k,iw)); }
    if(a->op==E_ITE&&isC(a->b)&&isC(a->c)) return mkIte(a->a,mkSlt(a->b,b),mkSlt(a->c,b)); }
  if(isC(a)){ if(a->k==smax) return mkConst(0,1); if(sx(a->k,w)<0&&nonneg(b)) return mkConst(1,1);
    if(a->k==maskw(w)) return mkEq(mkExtract(b,w-1,1),mkConst(0,1));
    if(b->op==E_SEXT){ unsigned iw=b->a->w; i128 lo=sx((u128)1<<(iw-1),iw), hi=-(lo+1), k=sx(a->k,w); if(k>=hi) return mkConst(0,1); if(k<lo) return mkConst(1,1); return mkSlt(mkConst((u128)k,iw),b->a); }
    if(b->op==E_ITE&&isC(b->b)&&isC(b->c)) return mkIte(b->a,mkSlt(a,b->b),mkSlt(a,b->c)); }
  if(a->op==E_SEXT&&b->op==E_SEXT&&a->a->w==b->a->w) return mkSlt(a->a,b->a);
  return mkraw(E_SLT,1,0,a,b,0,0); }
E mkSle(E a,E b){ unsigned w=a->w;
  if(a==b) return mkConst(1,1);
  if(isC(a)&&isC(b)) return mkConst(sx(a->k,w)<=sx(b->k,w),1);
  u128 smin=(u128)1<<(w-1), smax=smin-1;
  if(isC(b)){ if(b->k==smax) return mkConst(1,1); return mkSlt(a,mkConst(b->k+1,w)); }
  if(isC(a)){ if(a->k==smin) return mkConst(1,1); return mkSlt(mkConst(a->k-1,w),b); }
  if(nonneg(a)&&nonneg(b)) return mkUle(a,b);
  return mkraw(E_SLE,1,0,a,b,0,0); }

static u128 ev(E e, const u8* m, size_t n){
  if(e->op==E_CONST) return e->k;
  if(e->ev_epoch==g_epoch) return e->ev;
  u128 r;
  switch(e->op){
   case E_VAR: r = e->k<n? m[(size_t)e->k]:0; break;
   case E_ITE: r= ev(e->a,m,n)? ev(e->b,m,n): ev(e->c,m,n); break;
   case E_ZEXT: r=ev(e->a,m,n); break;
   case E_SEXT: r=(u128)sx(ev(e->a,m,n),e->a->w)&maskw(e->w); break;
   case E_EXTRACT: r=(ev(e->a,m,n)>>(unsigned)e->k)&maskw(e->w); break;
   case E_CONCAT: r=(ev(e->a,m,n)<<e->b->w)|ev(e->b,m,n); break;
   case E_TABLE: { const Table*t=(const Table*)(uintptr_t)e->k; u128 i=ev(e->a,m,n); r= i<t->v.size()? t->v[(size_t)i]:0; break; }
   default:
     if(e->op>=E_FADD) r=fpEval(e->op,e->w,e->aux,e->a->w,ev(e->a,m,n),e->b?ev(e->b,m,n):0);
     else r=binEval(e->op,e->a->w,ev(e->a,m,n),ev(e->b,m,n)); }
  e->ev_epoch=g_epoch; e->ev=r; return r; }
static u64 g_lastModel=0;
u128 evalModel(E e, const Model* m){
  if(isC(e)) return e->k;
  if(g_lastModel!=m->id){ g_epoch++; g_lastModel=m->id; }
  return ev(e,m->v.data(),m->v.size()); }
const Bits256& truthTable(E e){
  if(e->tt) return *e->tt;
  static std::vector<u8> buf; u32 v=e->vs->v[0]; if(buf.size()<=v) buf.resize(v+64);
  Bits256* t=new Bits256{{0,0,0,0}};
  for(int i=0;i<256;i++){ buf[v]=i; g_epoch++; if(ev(e,buf.data(),buf.size())) t->set(i); }
  g_epoch++; g_lastModel=0; e->tt=t; return *t; }
std::vector<u128> tabulate(E e){ std::vector<u128> t(256); std::vector<u8> buf(e->vs->v[0]+1,0);
  for(int i=0;i<256;i++){ buf[e->vs->v[0]]=i; g_epoch++; t[i]=ev(e,buf.data(),buf.size()); } g_epoch++; g_lastModel=0; return t; }
std::string exprStr(E e,int d){
  static const char* n[]={"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","zext","sext","extract","concat","table","fadd","fsub","fmul","fdiv","fcmp","fcvt","si2f","ui2f","f2si","f2ui","ffloor"};
  char b[64];
  if(isC(e)){ snprintf(b,64,"%llu:%d",(unsigned long long)e->k,e->w); return b; }
  if(e->op==E_VAR){ snprintf(b,64,"v%u",(unsigned)e->k); return b; }
  if(!d) return "..";
  std::string s="("; s+=n[e->op]; snprintf(b,64,":%d",e->w); s+=b; if(e->op==E_EXTRACT){ snprintf(b,64,"@%d",(int)e->k); s+=b; } if(e->op==E_FCMP){ snprintf(b,64,"#%d",e->aux); s+=b;}
  if(e->a) s+=" "+exprStr(e->a,d-1); if(e->b) s+=" "+exprStr(e->b,d-1); if(e->c) s+=" "+exprStr(e->c,d-1); return s+")"; }
