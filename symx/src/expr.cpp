#include "expr.h"
#include <unordered_map>
#include <unordered_set>
#include <cmath>
#include <functional>
#include <algorithm>
std::vector<std::string> varNames; std::vector<uint16_t> varWidths;
static VarSet emptyVS;
static uint32_t nextId=1;
struct EH{ size_t operator()(const Expr*e) const {return e->h;} };
struct EQ{ bool operator()(const Expr*a,const Expr*b) const {
  if(a->op!=b->op||a->w!=b->w||a->aux!=b->aux||a->nk!=b->nk||a->c!=b->c) return false;
  for(unsigned i=0;i<a->nk;i++) if(a->kid(i)!=b->kid(i)) return false; return true; } };
static std::unordered_set<Expr*,EH,EQ> table;
size_t exprCount(){return table.size();}
static char* arena=nullptr; static size_t arenaLeft=0;
static Expr* allocE(){ const size_t sz=(sizeof(Expr)+15)&~(size_t)15; if(arenaLeft<sz){ arenaLeft=1<<20; arena=(char*)aligned_alloc(16,arenaLeft);} Expr*e=(Expr*)arena; arena+=sz; arenaLeft-=sz; memset((void*)e,0,sizeof(Expr)); return e; }
struct VSH{ size_t operator()(const VarSet*s) const{ size_t h=7; for(auto x:s->w) h=h*1000003ull^x; return h; } };
struct VSE{ bool operator()(const VarSet*a,const VarSet*b) const{ return a->w==b->w; } };
static std::unordered_set<const VarSet*,VSH,VSE> vsTable;
static const VarSet* internVS(VarSet&&s){ while(!s.w.empty()&&!s.w.back()) s.w.pop_back(); auto it=vsTable.find(&s); if(it!=vsTable.end()) return *it; auto*n=new VarSet(std::move(s)); vsTable.insert(n); return n; }
static E intern(Op op,unsigned w,unsigned aux,E*kids,unsigned nk,u128 c=0){
  Expr t; memset((void*)&t,0,sizeof t); t.op=op;t.w=w;t.aux=aux;t.nk=nk;t.c=c;
  if(nk<=3){ for(unsigned i=0;i<nk;i++) t.k[i]=kids[i]; } else t.kx=kids;
  uint64_t h=op*0x9E3779B97F4A7C15ull ^ ((uint64_t)w<<32|aux); h^=(uint64_t)c*0xff51afd7ed558ccdull; h^=(uint64_t)(c>>64)*0xc4ceb9fe1a85ec53ull;
  for(unsigned i=0;i<nk;i++){ h^=h>>29; h=h*0xbf58476d1ce4e5b9ull + kids[i]->id*0x94d049bb133111ebull; }
  h^=h>>31; t.h=h;
  auto it=table.find(&t); if(it!=table.end()) return *it;
  Expr*e=allocE(); *e=t; if(nk>3){ e->kx=(E*)malloc(nk*sizeof(E)); memcpy(e->kx,kids,nk*sizeof(E)); }
  e->id=nextId++;
  // var set
  if(op==O_VAR){ VarSet s; s.set(aux); e->vars=internVS(std::move(s)); }
  else { const VarSet*v=nullptr; bool multi=false; for(unsigned i=0;i<nk;i++){ const VarSet*kv=kids[i]->vars; if(kv->w.empty()) continue; if(!v) v=kv; else if(v!=kv) multi=true; }
    if(!v) e->vars=&emptyVS; else if(!multi) e->vars=v; else { VarSet s; for(unsigned i=0;i<nk;i++) s.add(*kids[i]->vars); e->vars=internVS(std::move(s)); } }
  table.insert(e); return e;
}
E mkConst(u128 v,unsigned w){ assert(w>0&&w<=128); return intern(O_CONST,w,0,nullptr,0,v&maskOf(w)); }
E mkVar(unsigned idx,unsigned w){ return intern(O_VAR,w,idx,nullptr,0); }
unsigned newVar(const std::string&n,unsigned w){ varNames.push_back(n); varWidths.push_back(w); return varNames.size()-1; }
static inline s128 sx(u128 v,unsigned w){ if(w>=128) return (s128)v; u128 m=(u128)1<<(w-1); return (s128)((v^m)-m); }
static u128 foldBin(Op op,u128 a,u128 b,unsigned w){
  u128 m=maskOf(w);
  switch(op){
  case O_ADD:return (a+b)&m; case O_SUB:return (a-b)&m; case O_MUL:return (a*b)&m;
  case O_UDIV:return b?a/b:m; case O_UREM:return b?a%b:a;
  case O_SDIV:{ if(!b) return sx(a,w)<0?1:m; s128 x=sx(a,w),y=sx(b,w); if(y==-1) return (u128)(-x)&m; return (u128)(x/y)&m; }
  case O_SREM:{ if(!b) return a; s128 x=sx(a,w),y=sx(b,w); if(y==-1) return 0; return (u128)(x%y)&m; }
  case O_AND:return a&b; case O_OR:return a|b; case O_XOR:return a^b;
  case O_SHL:return b>=w?0:(a<<(unsigned)b)&m; case O_LSHR:return b>=w?0:a>>(unsigned)b;
  case O_ASHR:{ s128 x=sx(a,w); unsigned s=b>=w?w-1:(unsigned)b; return (u128)(x>>s)&m; }
  default: abort(); }
}
static inline bool isZero(E e){return e->op==O_CONST&&e->c==0;}
static inline bool isOnes(E e){return e->op==O_CONST&&e->c==maskOf(e->w);}
// structural split test: does e have a constant field or is it a concat?
static bool splittable(E e){ return e->op==O_CONCAT; }
static E raw2(Op op,E a,E b,unsigned w,unsigned aux=0){ E k[2]={a,b}; return intern(op,w,aux,k,2); }
E mkNot(E a){ return mkBin(O_XOR,a,mkConst(maskOf(a->w),a->w)); }
E mkAndB(E a,E b){ return mkBin(O_AND,a,b);} E mkOrB(E a,E b){return mkBin(O_OR,a,b);}
static bool concatHasConst(E e){ if(e->op!=O_CONCAT) return false; return e->k[0]->isC()||e->k[1]->isC()||concatHasConst(e->k[0])||concatHasConst(e->k[1]); }
// Signed range of an expression, from its structure. Used to turn division by a constant into comparisons.
struct SR { s128 lo,hi; };
static std::unordered_map<E,SR> srMemo;
static s128 sxw(u128 v,unsigned w){ if(w<128&&((v>>(w-1))&1)) v|=~maskOf(w); return (s128)v; }
static SR srange(E e,int d=24){
  unsigned w=e->w; SR full={-((s128)1<<(w-1)),((s128)1<<(w-1))-1};
  if(e->op==O_CONST){ s128 v=sxw(e->c,w); return {v,v}; }
  if(w>64||d<=0) return full;
  auto it=srMemo.find(e); if(it!=srMemo.end()) return it->second;
  SR r=full; auto in=[&](s128 lo,s128 hi){ if(lo>=full.lo&&hi<=full.hi&&lo<=hi) r={lo,hi}; };
  switch(e->op){
  case O_ADD:{ SR a=srange(e->k[0],d-1),b=srange(e->k[1],d-1); in(a.lo+b.lo,a.hi+b.hi); break; }
  case O_SUB:{ SR a=srange(e->k[0],d-1),b=srange(e->k[1],d-1); in(a.lo-b.hi,a.hi-b.lo); break; }
  case O_MUL: if(e->k[1]->isC()){ SR a=srange(e->k[0],d-1); s128 c=sxw(e->k[1]->c,w); s128 x=a.lo*c,y=a.hi*c; in(std::min(x,y),std::max(x,y)); } break;
  case O_SHL: if(e->k[1]->isC()&&e->k[1]->c<w-1){ SR a=srange(e->k[0],d-1); s128 c=(s128)1<<(int)e->k[1]->c; in(a.lo*c,a.hi*c); } break;
  case O_ASHR: if(e->k[1]->isC()&&e->k[1]->c<w){ SR a=srange(e->k[0],d-1); in(a.lo>>(int)e->k[1]->c,a.hi>>(int)e->k[1]->c); } break;
  case O_LSHR: if(e->k[1]->isC()&&e->k[1]->c<w){ SR a=srange(e->k[0],d-1); int c=(int)e->k[1]->c; if(a.lo>=0) in(a.lo>>c,a.hi>>c); else if(c>0) in(0,(s128)(maskOf(w)>>c)); } break;
  case O_SDIV: if(e->k[1]->isC()&&sxw(e->k[1]->c,w)>0){ SR a=srange(e->k[0],d-1); s128 c=sxw(e->k[1]->c,w); in(a.lo/c,a.hi/c); } break;
  case O_SREM: if(e->k[1]->isC()&&sxw(e->k[1]->c,w)>0){ SR a=srange(e->k[0],d-1); s128 c=sxw(e->k[1]->c,w)-1; in(a.lo>=0?0:std::max(a.lo,-c),a.hi<=0?0:std::min(a.hi,c)); } break;
  case O_UDIV: if(e->k[1]->isC()&&sxw(e->k[1]->c,w)>0){ SR a=srange(e->k[0],d-1); s128 c=sxw(e->k[1]->c,w); if(a.lo>=0) in(a.lo/c,a.hi/c); } break;
  case O_UREM: if(e->k[1]->isC()&&sxw(e->k[1]->c,w)>0){ SR a=srange(e->k[0],d-1); s128 c=sxw(e->k[1]->c,w)-1; in(0,a.lo>=0?std::min(a.hi,c):c); } break;
  case O_AND: if(e->k[1]->isC()&&sxw(e->k[1]->c,w)>=0) in(0,sxw(e->k[1]->c,w)); break;
  case O_ITE:{ SR a=srange(e->k[1],d-1),b=srange(e->k[2],d-1);
    E c=e->k[0]; bool neg=false; if(c->op==O_XOR&&c->k[1]->isC()&&c->k[1]->c==1){ neg=true; c=c->k[0]; }
    if((c->op==O_SLT||c->op==O_ULT)&&w>=8&&(c->k[0]->isC()||c->k[1]->isC())){ // what the condition says about each arm
      E v=c->k[0]->isC()?c->k[1]:c->k[0]; unsigned cw=v->w; E T=c->k[0]->isC()?c->k[0]:c->k[1]; s128 t=sxw(T->c,cw);
      bool okc=cw<=w; if(c->op==O_ULT) okc=okc&&t>=0&&srange(v,d-1).lo>=0;
      if(okc) for(int arm=1;arm<=2;arm++){
        E x=e->k[arm]; s128 k=0; E bs=x; if(x->op==O_ADD&&x->k[1]->isC()){ k=sxw(x->k[1]->c,w); bs=x->k[0]; }
        SR q=srange(bs,d-1); if(bs->isC()||q.lo<-((s128)1<<(cw-1))||q.hi>=((s128)1<<(cw-1))) continue;
        if(mkExtract(bs,0,cw)!=v) continue;
        bool truth=(arm==1)!=neg; SR z=q;
        if(!c->k[0]->isC()){ if(truth) z.hi=std::min(z.hi,t-1); else z.lo=std::max(z.lo,t); } else { if(truth) z.lo=std::max(z.lo,t+1); else z.hi=std::min(z.hi,t); }
        if(z.lo>z.hi) continue;
        if(z.lo+k>=full.lo&&z.hi+k<=full.hi){ SR&tgt=arm==1?a:b; tgt.lo=std::max(tgt.lo,z.lo+k); tgt.hi=std::min(tgt.hi,z.hi+k); if(tgt.lo>tgt.hi) tgt={z.lo+k,z.hi+k}; }
      }
    }
    in(std::min(a.lo,b.lo),std::max(a.hi,b.hi)); break; }
  case O_SEXT:{ SR a=srange(e->k[0],d-1); in(a.lo,a.hi); break; }
  case O_CONCAT:{ unsigned lw=e->k[1]->w; SR h=srange(e->k[0],d-1),l=srange(e->k[1],d-1); s128 m=(s128)1<<lw;
    if(l.lo<0) l={0,m-1}; in(h.lo*m+l.lo,h.hi*m+l.hi); break; }
  case O_EXTRACT: if(e->aux==0){ SR a=srange(e->k[0],d-1); in(a.lo,a.hi); } break;
  default: break;
  }
  srMemo[e]=r; return r;
}
// Writes e as c*X+Y (no wrapping) where Y is small; false when the structure does not say so.
static bool decomp0(E e,s128 c,E&X,E&Y,int d);
static bool decomp(E e,s128 c,E&X,E&Y,int d){
  struct V{ E x,y; bool ok; }; static std::unordered_map<uint64_t,V> memo; uint64_t key=(uint64_t)e->id*1000003u^((uint64_t)c<<40)^(uint64_t)c;
  static std::unordered_map<uint64_t,std::pair<E,s128> > own; auto it=memo.find(key); if(it!=memo.end()&&own[key]==std::make_pair(e,c)){ X=it->second.x; Y=it->second.y; return it->second.ok; }
  V v{nullptr,nullptr,false}; v.ok=decomp0(e,c,v.x,v.y,d); memo[key]=v; own[key]={e,c}; X=v.x; Y=v.y; return v.ok;
}
static bool decomp0(E e,s128 c,E&X,E&Y,int d){
  unsigned w=e->w;
  if(e->isC()){ s128 v=sxw(e->c,w); X=mkConst((u128)(v/c),w); Y=mkConst((u128)(v%c),w); return true; }
  if(d<=0) return false;
  switch(e->op){
  case O_ADD: case O_SUB:{ s128 m=(s128)1<<(w-1); SR a=srange(e->k[0]),b=srange(e->k[1]); if(e->op==O_SUB){ s128 t=b.lo; b.lo=-b.hi; b.hi=-t; } if(a.lo+b.lo<-m||a.hi+b.hi>=m) break;
    E x1,y1,x2,y2; if(!decomp(e->k[0],c,x1,y1,d-1)||!decomp(e->k[1],c,x2,y2,d-1)) break; X=mkBin(e->op,x1,x2); Y=mkBin(e->op,y1,y2); return true; }
  case O_MUL: if(e->k[1]->isC()){ s128 v=sxw(e->k[1]->c,w), m=(s128)1<<(w-1); SR a=srange(e->k[0]); if(v>0&&v%c==0&&a.lo*v>=-m&&a.hi*v<m){ X=mkBin(O_MUL,e->k[0],mkConst((u128)(v/c),w)); Y=mkConst(0,w); return true; } } break;
  case O_SHL: if(e->k[1]->isC()&&e->k[1]->c<40){ s128 v=(s128)1<<(int)e->k[1]->c, m=(s128)1<<(w-1); SR a=srange(e->k[0]); if(a.lo*v<-m||a.hi*v>=m) break; E x1,y1; if(!decomp(e->k[0],c,x1,y1,d-1)) break; X=mkBin(O_MUL,x1,mkConst((u128)v,w)); Y=mkBin(O_MUL,y1,mkConst((u128)v,w)); return true; } break;
  case O_ITE:{ E x1,y1,x2,y2; if(!decomp(e->k[1],c,x1,y1,d-1)||!decomp(e->k[2],c,x2,y2,d-1)) break; X=mkIte(e->k[0],x1,x2); Y=mkIte(e->k[0],y1,y2); return true; }
  case O_CONCAT: if(!isZero(e->k[0])||e->k[1]->w<8) break;
    if(srange(e->k[1]).lo<0){ // unsigned reading of a value that may be negative
      E i=e->k[1]; unsigned iw=i->w; if(c>=((s128)1<<(iw-1))||iw>48||w<iw+1) break; E x1,y1; if(!decomp(i,c,x1,y1,d-1)) break;
      E ng=mkSlt(i,mkConst(0,iw)); s128 t=(s128)1<<iw; E z=mkConst(0,w);
      X=mkBin(O_ADD,mkSExt(x1,w),mkIte(ng,mkConst((u128)(t/c),w),z)); Y=mkBin(O_ADD,mkSExt(y1,w),mkIte(ng,mkConst((u128)(t%c),w),z)); return true; } // fall through: zero extension of a non-negative value
  case O_SEXT:{ E i=e->k[e->op==O_CONCAT?1:0]; if(i->w<8||c>=((s128)1<<(i->w-1))) break; E x1,y1; if(!decomp(i,c,x1,y1,d-1)) break; X=mkSExt(x1,w); Y=mkSExt(y1,w); return true; }
  default: break;
  }
  SR r=srange(e); if(r.hi<4*c&&r.lo>-4*c){ X=mkConst(0,w); Y=e; return true; }
  return false;
}
static E divByConst(Op op,E a,u128 cc,unsigned w){
  s128 c=sxw(cc,w); if(c<=1||w<8||w>64) return nullptr;
  SR r=srange(a); bool sg=op==O_SDIV||op==O_SREM, rem=op==O_UREM||op==O_SREM;
  if(!sg&&r.lo<0) return nullptr;
  s128 ql=r.lo/c,qh=r.hi/c;
  if(qh-ql<8){
    auto val=[&](s128 q){ return rem?mkBin(O_ADD,a,mkConst((u128)(-q*c),w)):mkConst((u128)q,w); };
    E x=val(ql);
    for(s128 q=ql+1;q<=qh;q++){ s128 thr=q>0?q*c:(q-1)*c+1; x=mkIte(mkSlt(a,mkConst((u128)thr,w)),x,val(q)); }
    return x;
  }
  E X,Y;
  if(c>=10&&!a->isC()&&a->op!=O_VAR&&decomp(a,c,X,Y,16)){
    SR y=srange(Y); auto fl=[&](s128 v){ return v>=0?v/c:-((-v+c-1)/c); }; s128 f0=fl(y.lo),f1=fl(y.hi);
    if(f1-f0<10){
      E q=mkConst((u128)f0,w); for(s128 i=f0+1;i<=f1;i++) q=mkIte(mkSlt(Y,mkConst((u128)(i*c),w)),q,mkConst((u128)i,w));
      E Q=mkBin(O_ADD,X,q), R=mkBin(O_SUB,Y,mkBin(O_MUL,q,mkConst((u128)c,w))); // a = c*Q+R, 0<=R<c
      if(r.lo<0){ E adj=mkAndB(mkSlt(a,mkConst(0,w)),mkNot(mkEq(R,mkConst(0,w)))); Q=mkIte(adj,mkBin(O_ADD,Q,mkConst(1,w)),Q); R=mkIte(adj,mkBin(O_SUB,R,mkConst((u128)c,w)),R); }
      return rem?R:Q;
    }
  }
  unsigned k=2; while(k<w&&!(r.lo>=-((s128)1<<(k-1))&&r.hi<((s128)1<<(k-1))&&c<((s128)1<<(k-1)))) k++;
  if(k+4<w){ E n=mkExtract(a,0,k); if(n->w==k) return mkSExt(mkBin(r.lo>=0?(rem?O_UREM:O_UDIV):op,n,mkConst((u128)c,k)),w); }
  return nullptr;
}

E mkBin(Op op,E a,E b){
  if(a->w!=b->w){ fprintf(stderr,"mkBin width mismatch %d %d op %d\n",a->w,b->w,op); abort(); }
  unsigned w=a->w;
  if(a->isC()&&b->isC()) return mkConst(foldBin(op,a->c,b->c,w),w);
  switch(op){
  case O_ADD:
    if(a->isC()) std::swap(a,b);
    if(isZero(b)) return a;
    if(b->isC()&&a->op==O_ADD&&a->k[1]->isC()) return mkBin(O_ADD,a->k[0],mkConst(a->k[1]->c+b->c,w));
    if(a->op==O_ADD&&a->k[1]->isC()&&!b->isC()) return mkBin(O_ADD,mkBin(O_ADD,a->k[0],b),a->k[1]);
    if(b->op==O_ADD&&b->k[1]->isC()) return mkBin(O_ADD,mkBin(O_ADD,a,b->k[0]),b->k[1]);
    if(w==1) return mkBin(O_XOR,a,b);
    // (x - y) + y -> x
    if(a->op==O_SUB&&a->k[1]==b) return a->k[0];
    if(b->op==O_SUB&&b->k[1]==a) return b->k[0];
    if(!b->isC()&&a->id>b->id) std::swap(a,b);
    break;
  case O_SUB:
    if(a==b) return mkConst(0,w);
    if(b->isC()) return mkBin(O_ADD,a,mkConst((u128)0-b->c,w));
    if(w==1) return mkBin(O_XOR,a,b);
    if(a->op==O_ADD){ if(a->k[0]==b) return a->k[1]; if(a->k[1]==b) return a->k[0]; }
    break;
  case O_MUL:
    if(a->isC()) std::swap(a,b);
    if(isZero(b)) return b; if(b->isC()&&b->c==1) return a;
    if(b->isC()&&(b->c&(b->c-1))==0){ unsigned s=0; while(((b->c>>s)&1)==0) s++; return mkBin(O_SHL,a,mkConst(s,w)); }
    if(!b->isC()&&a->id>b->id) std::swap(a,b);
    break;
  case O_UDIV:
    if(b->isC()&&b->c==1) return a;
    if(b->isC()&&b->c&&(b->c&(b->c-1))==0){ unsigned s=0; while(((b->c>>s)&1)==0) s++; return mkBin(O_LSHR,a,mkConst(s,w)); }
    if(b->isC()&&a->op==O_CONCAT&&isZero(a->k[0])&&b->c!=0){ unsigned lw=a->k[1]->w; if(b->c<=maskOf(lw)) return mkZExt(mkBin(O_UDIV,a->k[1],mkConst(b->c,lw)),w); else return mkConst(0,w); }
    if(b->isC()&&b->c){ E x=divByConst(op,a,b->c,w); if(x) return x; }
    break;
  case O_UREM:
    if(b->isC()&&b->c==1) return mkConst(0,w);
    if(b->isC()&&b->c&&(b->c&(b->c-1))==0) return mkBin(O_AND,a,mkConst(b->c-1,w));
    if(b->isC()&&a->op==O_CONCAT&&isZero(a->k[0])&&b->c!=0){ unsigned lw=a->k[1]->w; if(b->c<=maskOf(lw)) return mkZExt(mkBin(O_UREM,a->k[1],mkConst(b->c,lw)),w); else return a; }
    if(b->isC()&&b->c){ E x=divByConst(op,a,b->c,w); if(x) return x; }
    break;
  case O_SDIV: case O_SREM:
    if(b->isC()&&b->c==1) return op==O_SDIV?a:mkConst(0,w);
    if(b->isC()&&a->op==O_CONCAT&&isZero(a->k[0])&&sx(b->c,w)>0) return mkBin(op==O_SDIV?O_UDIV:O_UREM,a,b);
    if(b->isC()&&b->c){ E x=divByConst(op,a,b->c,w); if(x) return x; }
    break;
  case O_AND:
    if(a->isC()) std::swap(a,b);
    if(isZero(b)) return b; if(isOnes(b)) return a; if(a==b) return a;
    if(b->isC()&&a->op==O_AND&&a->k[1]->isC()) return mkBin(O_AND,a->k[0],mkConst(a->k[1]->c&b->c,w));
    if(w==1){ // a & !a ; absorption
      if(a->op==O_XOR&&isOnes(a->k[1])&&a->k[0]==b) return mkConst(0,1);
      if(b->op==O_XOR&&isOnes(b->k[1])&&b->k[0]==a) return mkConst(0,1); }
    if(b->isC()){ // split at mask runs
      u128 m=b->c; unsigned s=0; bool v=m&1; while(s<w&&(bool)((m>>s)&1)==v) s++;
      if(s<w) return mkConcat(mkBin(O_AND,mkExtract(a,s,w-s),mkConst(m>>s,w-s)), v?mkExtract(a,0,s):mkConst(0,s)); }
    goto bitsplit;
  case O_OR:
    if(a->isC()) std::swap(a,b);
    if(isZero(b)) return a; if(isOnes(b)) return b; if(a==b) return a;
    if(w==1){ if(a->op==O_XOR&&isOnes(a->k[1])&&a->k[0]==b) return mkConst(1,1);
      if(b->op==O_XOR&&isOnes(b->k[1])&&b->k[0]==a) return mkConst(1,1); }
    if(b->isC()){ u128 m=b->c; unsigned s=0; bool v=m&1; while(s<w&&(bool)((m>>s)&1)==v) s++;
      if(s<w) return mkConcat(mkBin(O_OR,mkExtract(a,s,w-s),mkConst(m>>s,w-s)), v?mkConst(maskOf(s),s):mkExtract(a,0,s)); }
    goto bitsplit;
  case O_XOR:
    if(a->isC()) std::swap(a,b);
    if(isZero(b)) return a; if(a==b) return mkConst(0,w);
    if(b->isC()&&a->op==O_XOR&&a->k[1]->isC()) return mkBin(O_XOR,a->k[0],mkConst(a->k[1]->c^b->c,w));
    if(w==1&&b->isC()){ // not
      if(a->op==O_ITE&&a->k[1]->isC()&&a->k[2]->isC()) return mkIte(a->k[0],mkNot(a->k[1]),mkNot(a->k[2])); }
    if(b->isC()&&w>1&&!isOnes(b)){ u128 m=b->c; unsigned s=0; bool v=m&1; while(s<w&&(bool)((m>>s)&1)==v) s++;
      if(s<w) return mkConcat(mkBin(O_XOR,mkExtract(a,s,w-s),mkConst(m>>s,w-s)), v?mkNot(mkExtract(a,0,s)):mkExtract(a,0,s)); }
    if(a->op==O_XOR&&!b->isC()){ if(a->k[0]==b) return a->k[1]; if(a->k[1]==b) return a->k[0]; }
    if(b->op==O_XOR&&!a->isC()){ if(b->k[0]==a) return b->k[1]; if(b->k[1]==a) return b->k[0]; }
    goto bitsplit;
  bitsplit:
    if(a->op==O_CONCAT&&(concatHasConst(a)||b->isC()||splittable(b))){ unsigned lw=a->k[1]->w; return mkConcat(mkBin(op,a->k[0],mkExtract(b,lw,w-lw)),mkBin(op,a->k[1],mkExtract(b,0,lw))); }
    if(b->op==O_CONCAT&&(concatHasConst(b)||a->isC()||splittable(a))){ unsigned lw=b->k[1]->w; return mkConcat(mkBin(op,mkExtract(a,lw,w-lw),b->k[0]),mkBin(op,mkExtract(a,0,lw),b->k[1])); }
    if(!b->isC()&&a->id>b->id) std::swap(a,b);
    break;
  case O_SHL:
    if(isZero(b)) return a; if(isZero(a)) return a;
    if(b->isC()){ if(b->c>=w) return mkConst(0,w); unsigned s=(unsigned)b->c; return mkConcat(mkExtract(a,0,w-s),mkConst(0,s)); }
    break;
  case O_LSHR:
    if(isZero(b)) return a; if(isZero(a)) return a;
    if(b->isC()){ if(b->c>=w) return mkConst(0,w); unsigned s=(unsigned)b->c; return mkConcat(mkConst(0,s),mkExtract(a,s,w-s)); }
    break;
  case O_ASHR:
    if(isZero(b)) return a;
    if(b->isC()){ unsigned s=b->c>=w?w-1:(unsigned)b->c; return mkSExt(mkExtract(a,s,w-s),w); }
    break;
  default: break;
  }
  // push binary op with const through ITE with const arms
  if(b->isC()&&a->op==O_ITE&&(a->k[1]->isC()||a->k[2]->isC())) return mkIte(a->k[0],mkBin(op,a->k[1],b),mkBin(op,a->k[2],b));
  if(a->isC()&&b->op==O_ITE&&(b->k[1]->isC()||b->k[2]->isC())) return mkIte(b->k[0],mkBin(op,a,b->k[1]),mkBin(op,a,b->k[2]));
  return raw2(op,a,b,w);
}
E mkEq(E a,E b){
  if(a->w!=b->w){ fprintf(stderr,"mkEq width %d %d\n",a->w,b->w); abort(); }
  if(a==b) return mkConst(1,1);
  if(a->isC()) std::swap(a,b);
  if(a->isC()&&b->isC()) return mkConst(a->c==b->c,1);
  unsigned w=a->w;
  if(b->isC()){
    if(w==1) return b->c?a:mkNot(a);
    switch(a->op){
    case O_CONCAT:{ unsigned lw=a->k[1]->w; E hi=mkEq(a->k[0],mkConst(b->c>>lw,w-lw)); if(isZero(hi)) return hi; E lo=mkEq(a->k[1],mkConst(b->c,lw)); return mkBin(O_AND,hi,lo); }
    case O_ADD: if(a->k[1]->isC()) return mkEq(a->k[0],mkConst(b->c-a->k[1]->c,w)); break;
    case O_SUB: if(b->c==0) return mkEq(a->k[0],a->k[1]); break;
    case O_XOR: if(a->k[1]->isC()) return mkEq(a->k[0],mkConst(b->c^a->k[1]->c,w)); if(b->c==0) return mkEq(a->k[0],a->k[1]); break;
    case O_ITE: if(a->k[1]->isC()||a->k[2]->isC()) return mkIte(a->k[0],mkEq(a->k[1],b),mkEq(a->k[2],b)); break;
    case O_SEXT:{ unsigned iw=a->k[0]->w; u128 t=b->c&maskOf(iw); if(((u128)sx(t,iw)&maskOf(w))!=b->c) return mkConst(0,1); return mkEq(a->k[0],mkConst(t,iw)); }
    default: break; }
    if(b->c>umaxOf(a,4)) return mkConst(0,1);
  } else {
    if(a->op==O_CONCAT&&b->op==O_CONCAT&&a->k[1]->w==b->k[1]->w) return mkBin(O_AND,mkEq(a->k[0],b->k[0]),mkEq(a->k[1],b->k[1]));
    if(a->op==O_CONCAT&&concatHasConst(a)){ unsigned lw=a->k[1]->w; return mkBin(O_AND,mkEq(a->k[0],mkExtract(b,lw,w-lw)),mkEq(a->k[1],mkExtract(b,0,lw))); }
    if(b->op==O_CONCAT&&concatHasConst(b)) return mkEq(b,a);
    if(a->op==O_CONCAT&&b->op==O_CONCAT){ unsigned lw=std::max(a->k[1]->w,b->k[1]->w); return mkBin(O_AND,mkEq(mkExtract(a,lw,w-lw),mkExtract(b,lw,w-lw)),mkEq(mkExtract(a,0,lw),mkExtract(b,0,lw))); }
    if(w==1) return mkNot(mkBin(O_XOR,a,b));
    if(a->op==O_SEXT&&b->op==O_SEXT&&a->k[0]->w==b->k[0]->w) return mkEq(a->k[0],b->k[0]);
    if(a->op==O_ADD&&b->op==O_ADD&&a->k[1]==b->k[1]) return mkEq(a->k[0],b->k[0]);
    if(a->op==O_ADD&&a->k[1]->isC()&&a->k[0]==b) return mkConst(0,1);
    if(b->op==O_ADD&&b->k[1]->isC()&&b->k[0]==a) return mkConst(0,1);
    if(a->id>b->id) std::swap(a,b);
  }
  return raw2(O_EQ,a,b,1);
}
static unsigned topZeros(E e){ // number of known-zero top bits
  if(e->op==O_CONCAT&&isZero(e->k[0])) return e->k[0]->w+topZeros(e->k[1]);
  if(e->op==O_CONST){ unsigned n=0; while(n<e->w&&!((e->c>>(e->w-1-n))&1)) n++; return n; }
  return 0; }
E mkUlt(E a,E b){
  if(a->w!=b->w){ fprintf(stderr,"mkUlt width %d %d\n",a->w,b->w); abort(); }
  unsigned w=a->w;
  if(a==b) return mkConst(0,1);
  if(a->isC()&&b->isC()) return mkConst(a->c<b->c,1);
  if(isZero(b)) return mkConst(0,1); if(isOnes(a)) return mkConst(0,1);
  if(w==1) return mkBin(O_AND,mkNot(a),b);
  if(b->isC()&&b->c==1) return mkEq(a,mkConst(0,w));
  if(isZero(a)) return mkNot(mkEq(b,a));
  unsigned t=std::min(topZeros(a),topZeros(b)); if(t>=w) t=w-1;
  if(t>0) return mkUlt(mkExtract(a,0,w-t),mkExtract(b,0,w-t));
  if(b->isC()){ if(umaxOf(a)<b->c) return mkConst(1,1); if(uminOf(a)>=b->c) return mkConst(0,1);
    if(a->op==O_ITE&&(a->k[1]->isC()||a->k[2]->isC())) return mkIte(a->k[0],mkUlt(a->k[1],b),mkUlt(a->k[2],b)); }
  else if(a->isC()){ if(uminOf(b)>a->c) return mkConst(1,1); if(umaxOf(b)<=a->c) return mkConst(0,1);
    if(b->op==O_ITE&&(b->k[1]->isC()||b->k[2]->isC())) return mkIte(b->k[0],mkUlt(a,b->k[1]),mkUlt(a,b->k[2])); }
  else { if(umaxOf(a)<uminOf(b)) return mkConst(1,1); if(uminOf(a)>=umaxOf(b)) return mkConst(0,1); }
  return raw2(O_ULT,a,b,1);
}
E mkSlt(E a,E b){
  unsigned w=a->w; assert(w==b->w);
  if(a==b) return mkConst(0,1);
  if(a->isC()&&b->isC()) return mkConst(sx(a->c,w)<sx(b->c,w),1);
  if(topZeros(a)>0&&topZeros(b)>0) return mkUlt(a,b);
  if(a->op==O_SEXT&&b->op==O_SEXT){ unsigned m=std::max(a->k[0]->w,b->k[0]->w); if(m<w) return mkSlt(mkExtract(a,0,m),mkExtract(b,0,m)); }
  if(a->op==O_SEXT&&b->isC()){ unsigned iw=a->k[0]->w; s128 v=sx(b->c,w); s128 lo=-((s128)1<<(iw-1)), hi=((s128)1<<(iw-1))-1;
    if(v>hi) return mkConst(1,1); if(v<=lo) return mkConst(0,1); return mkSlt(a->k[0],mkConst((u128)v,iw)); }
  if(b->op==O_SEXT&&a->isC()){ unsigned iw=b->k[0]->w; s128 v=sx(a->c,w); s128 lo=-((s128)1<<(iw-1)), hi=((s128)1<<(iw-1))-1;
    if(v<lo) return mkConst(1,1); if(v>=hi) return mkConst(0,1); return mkSlt(mkConst((u128)v,iw),b->k[0]); }
  if(isZero(b)&&topZeros(a)>0) return mkConst(0,1);
  if(isZero(b)) return mkExtract(a,w-1,1);
  if(isOnes(a)) return mkNot(mkExtract(b,w-1,1));   // -1 < b
  if(topZeros(a)>0&&b->isC()&&sx(b->c,w)<0) return mkConst(0,1);
  if(topZeros(b)>0&&a->isC()&&sx(a->c,w)<0) return mkConst(1,1);
  if(b->isC()&&a->op==O_ITE&&(a->k[1]->isC()||a->k[2]->isC())) return mkIte(a->k[0],mkSlt(a->k[1],b),mkSlt(a->k[2],b));
  if(a->isC()&&b->op==O_ITE&&(b->k[1]->isC()||b->k[2]->isC())) return mkIte(b->k[0],mkSlt(a,b->k[1]),mkSlt(a,b->k[2]));
  if(w<=64&&w>=16){
    SR x=srange(a),y=srange(b); if(x.hi<y.lo) return mkConst(1,1); if(x.lo>=y.hi) return mkConst(0,1);
    auto split=[&](E e,s128&k){ if(e->op==O_ADD&&e->k[1]->isC()){ s128 c=sxw(e->k[1]->c,w); SR i=srange(e->k[0]); s128 m=(s128)1<<(w-1); if(i.lo+c>=-m&&i.hi+c<m&&(i.lo>-m||i.hi<m-1)){ k=c; return e->k[0]; } } k=0; return e; };
    s128 ka,kb; E a2=split(a,ka),b2=split(b,kb);
    if(ka||kb){ // a2+ka < b2+kb without wrapping, so move the constants to one side
      if(a2->isC()){ kb-=sxw(a2->c,w)+ka; ka=0; a2=mkConst(0,w); } else if(b2->isC()){ ka-=sxw(b2->c,w)+kb; kb=0; b2=mkConst(0,w); }
      s128 k=ka-kb, m=(s128)1<<(w-1); // a2+k < b2
      if(a2->isC()&&k==0){ return mkSlt(mkConst(0,w),b2); }
      if(a2->isC()){ if(k<m&&k>=-m) return mkSlt(mkConst((u128)k,w),b2); }
      else if(b2->isC()){ if(-k<m&&-k>=-m) return mkSlt(a2,mkConst((u128)-k,w)); }
      else if(k==0) return mkSlt(a2,b2);
      else if(ka&&kb){ SR i=srange(a2); if(k<m&&k>=-m&&i.lo+k>=-m&&i.hi+k<m) return mkSlt(mkBin(O_ADD,a2,mkConst((u128)k,w)),b2); }
    }
    unsigned k=2; while(k<w&&!(std::min(x.lo,y.lo)>=-((s128)1<<(k-1))&&std::max(x.hi,y.hi)<((s128)1<<(k-1)))) k++;
    if(k+4<w) return mkSlt(mkExtract(a,0,k),mkExtract(b,0,k));
  }
  return raw2(O_SLT,a,b,1);
}
E mkIte(E c,E a,E b){
  if(c->isC()) return c->c?a:b;
  if(a==b) return a;
  if(a->op==O_AGG){ std::vector<E> v; for(unsigned i=0;i<a->nk;i++) v.push_back(mkIte(c,a->kid(i),b->kid(i))); return mkAgg(v); }
  if(a->w!=b->w){ fprintf(stderr,"mkIte width\n"); abort(); }
  if(c->op==O_XOR&&isOnes(c->k[1])) return mkIte(c->k[0],b,a);
  if(a->w==1){
    if(a->isC()&&b->isC()) return a->c?c:mkNot(c);
    if(a->isC()) return a->c?mkBin(O_OR,c,b):mkBin(O_AND,mkNot(c),b);
    if(b->isC()) return b->c?mkBin(O_OR,mkNot(c),a):mkBin(O_AND,c,a);
  }
  if(a->op==O_ITE&&a->k[0]==c) return mkIte(c,a->k[1],b);
  if(b->op==O_ITE&&b->k[0]==c) return mkIte(c,a,b->k[2]);
  // shared concat fields
  if(a->op==O_CONCAT&&b->op==O_CONCAT&&a->k[1]->w==b->k[1]->w&&(a->k[0]==b->k[0]||a->k[1]==b->k[1]))
    return mkConcat(mkIte(c,a->k[0],b->k[0]),mkIte(c,a->k[1],b->k[1]));
  { // equal constant top bits
    unsigned t=std::min(topZeros(a),topZeros(b)); if(t>0&&t<a->w) return mkZExt(mkIte(c,mkExtract(a,0,a->w-t),mkExtract(b,0,a->w-t)),a->w); }
  E k[3]={c,a,b}; return intern(O_ITE,a->w,0,k,3);
}
E mkConcat(E hi,E lo){
  unsigned w=hi->w+lo->w; assert(w<=128);
  if(hi->isC()&&lo->isC()) return mkConst(hi->c<<lo->w|lo->c,w);
  if(hi->op==O_EXTRACT&&lo->op==O_EXTRACT&&hi->k[0]==lo->k[0]&&hi->aux==lo->aux+lo->w) return mkExtract(hi->k[0],lo->aux,w);
  auto lowPart=[](E h,E l){ return h->op==O_EXTRACT&&h->aux==l->w&&(h->k[0]->op==O_ADD||h->k[0]->op==O_SUB||h->k[0]->op==O_MUL)&&mkExtract(h->k[0],0,l->w)==l; };
  if(lowPart(hi,lo)) return mkExtract(hi->k[0],0,w);
  // right-assoc: Concat(Concat(a,b),c) -> Concat(a,Concat(b,c))
  if(hi->op==O_CONCAT) return mkConcat(hi->k[0],mkConcat(hi->k[1],lo));
  if(lo->op==O_CONCAT){ // merge hi with lo's top
    E t=lo->k[0];
    if(hi->isC()&&t->isC()) return mkConcat(mkConst(hi->c<<t->w|t->c,hi->w+t->w),lo->k[1]);
    if(hi->op==O_EXTRACT&&t->op==O_EXTRACT&&hi->k[0]==t->k[0]&&hi->aux==t->aux+t->w) return mkConcat(mkExtract(hi->k[0],t->aux,hi->w+t->w),lo->k[1]);
    if(lowPart(hi,t)) return mkConcat(mkExtract(hi->k[0],0,hi->w+t->w),lo->k[1]);
  }
  if(hi->op==O_ITE&&hi->k[1]->isC()&&hi->k[2]->isC()){ // fields chosen by one condition stay together
    if(lo->isC()) return mkIte(hi->k[0],mkConst(hi->k[1]->c<<lo->w|lo->c,w),mkConst(hi->k[2]->c<<lo->w|lo->c,w));
    if(lo->op==O_ITE&&lo->k[0]==hi->k[0]&&lo->k[1]->isC()&&lo->k[2]->isC()) return mkIte(hi->k[0],mkConst(hi->k[1]->c<<lo->w|lo->k[1]->c,w),mkConst(hi->k[2]->c<<lo->w|lo->k[2]->c,w));
  }
  if(hi->op==O_ITE){ // neighbouring pieces of one conditional value are put together again
    struct L{ static E one(E h,E l,int d){
      if(h->isC()&&l->isC()) return mkConst(h->c<<l->w|l->c,h->w+l->w);
      if(h->op==O_EXTRACT&&l->op==O_EXTRACT&&h->k[0]==l->k[0]&&h->aux==l->aux+l->w) return mkExtract(h->k[0],l->aux,h->w+l->w);
      if(h->op==O_EXTRACT&&h->aux==l->w&&(h->k[0]->op==O_ADD||h->k[0]->op==O_SUB||h->k[0]->op==O_MUL)&&mkExtract(h->k[0],0,l->w)==l) return mkExtract(h->k[0],0,h->w+l->w);
      if(h->op==O_ITE&&l->op==O_ITE&&h->k[0]==l->k[0]&&d>0){ E a=one(h->k[1],l->k[1],d-1),b=one(h->k[2],l->k[2],d-1); if(a||b) return mkIte(h->k[0],a?a:mkConcat(h->k[1],l->k[1]),b?b:mkConcat(h->k[2],l->k[2])); }
      return nullptr; } };
    E l=lo->op==O_CONCAT?lo->k[0]:lo;
    if(l->op==O_ITE&&l->k[0]==hi->k[0]){ E m=L::one(hi,l,6); if(m) return lo->op==O_CONCAT?mkConcat(m,lo->k[1]):m; }
  }
  return raw2(O_CONCAT,hi,lo,w);
}
static std::unordered_map<uint64_t,E> exMemo;
static E mkExtract0(E a,unsigned off,unsigned w);
E mkExtract(E a,unsigned off,unsigned w){
  assert(off+w<=a->w&&w>0);
  if(w==a->w) return a;
  if(a->isC()) return mkConst(a->c>>off,w);
  if(a->op==O_VAR||a->op==O_CONCAT) return mkExtract0(a,off,w);
  uint64_t key=(uint64_t)a->id<<16|off<<8|(w&255);
  auto it=exMemo.find(key); if(it!=exMemo.end()) return it->second;
  E r=mkExtract0(a,off,w); exMemo[key]=r; return r;
}
static E mkExtract0(E a,unsigned off,unsigned w){
  switch(a->op){
  case O_EXTRACT: return mkExtract(a->k[0],a->aux+off,w);
  case O_CONCAT:{ unsigned lw=a->k[1]->w; if(off>=lw) return mkExtract(a->k[0],off-lw,w); if(off+w<=lw) return mkExtract(a->k[1],off,w);
    return mkConcat(mkExtract(a->k[0],0,off+w-lw),mkExtract(a->k[1],off,lw-off)); }
  case O_SEXT:{ unsigned iw=a->k[0]->w; if(off+w<=iw) return mkExtract(a->k[0],off,w); if(off>=iw) return mkSExt(mkExtract(a->k[0],iw-1,1),w);
    return mkSExt(mkExtract(a->k[0],off,iw-off),w); }
  case O_AND: case O_OR: case O_XOR: return mkBin(a->op,mkExtract(a->k[0],off,w),mkExtract(a->k[1],off,w));
  case O_ADD: case O_SUB: case O_MUL: if(off==0) return mkBin(a->op,mkExtract(a->k[0],0,w),mkExtract(a->k[1],0,w)); break;
  case O_SHL: break;
  case O_ITE: return mkIte(a->k[0],mkExtract(a->k[1],off,w),mkExtract(a->k[2],off,w));
  default: break; }
  E k[1]={a}; return intern(O_EXTRACT,w,off,k,1);
}
E mkZExt(E a,unsigned w){ assert(w>=a->w); if(w==a->w) return a; return mkConcat(mkConst(0,w-a->w),a); }
E mkSExt(E a,unsigned w){
  assert(w>=a->w); if(w==a->w) return a;
  if(a->isC()) return mkConst((u128)sx(a->c,a->w),w);
  if(topZeros(a)>0) return mkZExt(a,w);
  if(a->op==O_SEXT) return mkSExt(a->k[0],w);
  if(a->op==O_ITE&&a->k[1]->isC()&&a->k[2]->isC()) return mkIte(a->k[0],mkSExt(a->k[1],w),mkSExt(a->k[2],w));
  E k[1]={a}; return intern(O_SEXT,w,0,k,1);
}
E mkAgg(const std::vector<E>&v){ assert(!v.empty()); std::vector<E> t=v; return intern(O_AGG,0,0,t.data(),t.size()); }
// ---- floating point folding
static inline float bf(u128 v){ uint32_t x=(uint32_t)v; float f; memcpy(&f,&x,4); return f; }
static inline double bd(u128 v){ uint64_t x=(uint64_t)v; double f; memcpy(&f,&x,8); return f; }
static inline u128 fb(float f){ uint32_t x; memcpy(&x,&f,4); if(f!=f) x=0x7fc00000; return x; }
static inline u128 db(double f){ uint64_t x; memcpy(&x,&f,8); if(f!=f) x=0x7ff8000000000000ull; return x; }
static u128 foldF2(Op op,u128 a,u128 b,unsigned w){
  if(w==32){ float x=bf(a),y=bf(b); switch(op){case O_FADD:return fb(x+y);case O_FSUB:return fb(x-y);case O_FMUL:return fb(x*y);case O_FDIV:return fb(x/y);case O_FREM:return fb(fmodf(x,y));
    case O_FEQ:return x==y;case O_FLT:return x<y;case O_FLE:return x<=y;default:abort();} }
  double x=bd(a),y=bd(b); switch(op){case O_FADD:return db(x+y);case O_FSUB:return db(x-y);case O_FMUL:return db(x*y);case O_FDIV:return db(x/y);case O_FREM:return db(fmod(x,y));
    case O_FEQ:return x==y;case O_FLT:return x<y;case O_FLE:return x<=y;default:abort();}
}
static u128 foldF1(Op op,u128 a,unsigned aw,unsigned w,unsigned aux){
  switch(op){
  case O_FSQRT: return w==32?fb(sqrtf(bf(a))):db(sqrt(bd(a)));
  case O_FISNAN: return aw==32?(bf(a)!=bf(a)):(bd(a)!=bd(a));
  case O_FTOSI:{ double d=aw==32?bf(a):bd(a); double lim=ldexp(1.0,(int)w-1); if(d!=d||d>=lim||d<=-lim-1){ return ((u128)1<<(w-1))&maskOf(w);} return (u128)(s128)d&maskOf(w); }
  case O_FTOUI:{ double d=aw==32?bf(a):bd(a); double lim=ldexp(1.0,(int)w); if(d!=d||d>=lim||d<=-1) return maskOf(w); return (u128)(s128)d&maskOf(w); }
  case O_SITOF:{ s128 v=sx(a,aw); return w==32?fb((float)v):db((double)v); }
  case O_UITOF: return w==32?fb((float)a):db((double)a);
  case O_FTOF: if(aw==w) return a; return w==64?db((double)bf(a)):fb((float)bd(a));
  case O_FRINT: if(w==32){ float x=bf(a); switch(aux){case 0:return fb(rintf(x));case 1:return fb(roundf(x));case 2:return fb(ceilf(x));case 3:return fb(floorf(x));default:return fb(truncf(x));} }
    else { double x=bd(a); switch(aux){case 0:return db(rint(x));case 1:return db(round(x));case 2:return db(ceil(x));case 3:return db(floor(x));default:return db(trunc(x));} }
  default: abort(); }
}
// a choice between two constants?
static bool iteC(E e,E&c,E&x,E&y){
  if(e->op==O_ITE&&e->k[1]->isC()&&e->k[2]->isC()){ c=e->k[0]; x=e->k[1]; y=e->k[2]; return true; }
  if(e->op==O_CONCAT&&e->k[0]->isC()&&e->k[1]->op==O_ITE&&e->k[1]->k[1]->isC()&&e->k[1]->k[2]->isC()){ E t=e->k[1]; c=t->k[0]; x=mkConst(e->k[0]->c<<t->w|t->k[1]->c,e->w); y=mkConst(e->k[0]->c<<t->w|t->k[2]->c,e->w); return true; }
  return false; }
E mkF2(Op op,E a,E b){
  assert(a->w==b->w);
  bool cmp=op==O_FEQ||op==O_FLT||op==O_FLE;
  if(a->isC()&&b->isC()) return mkConst(foldF2(op,a->c,b->c,a->w),cmp?1:a->w);
  { // push through ITE of consts
    E c,x,y,c2,x2,y2; if(b->isC()&&iteC(a,c,x,y)) return mkIte(c,mkF2(op,x,b),mkF2(op,y,b));
    if(a->isC()&&iteC(b,c,x,y)) return mkIte(c,mkF2(op,a,x),mkF2(op,a,y));
    if(iteC(a,c,x,y)&&iteC(b,c2,x2,y2)&&c==c2) return mkIte(c,mkF2(op,x,x2),mkF2(op,y,y2));
  }
  return raw2(op,a,b,cmp?1:a->w);
}
E mkF1(Op op,E a,unsigned w,unsigned aux){
  if(op==O_FTOF&&a->w==w) return a;
  if(a->isC()) return mkConst(foldF1(op,a->c,a->w,w,aux),w);
  { E c,x,y; if(iteC(a,c,x,y)) return mkIte(c,mkF1(op,x,w,aux),mkF1(op,y,w,aux)); }
  if(op==O_SITOF&&topZeros(a)>0) return mkF1(O_UITOF,a,w,aux);
  if(op==O_UITOF&&topZeros(a)>1&&a->w-topZeros(a)+1<a->w) return mkF1(O_UITOF,mkExtract(a,0,a->w-topZeros(a)),w,aux);
  if(op==O_SITOF&&a->op==O_SEXT) return mkF1(op,a->k[0],w,aux);
  E k[1]={a}; return intern(op,w,aux,k,1);
}
u128 umaxOf(E e,int d){
  if(e->isC()) return e->c; if(d<=0) return maskOf(e->w);
  switch(e->op){
  case O_CONCAT: return umaxOf(e->k[0],d-1)<<e->k[1]->w|umaxOf(e->k[1],d-1);
  case O_ITE: return std::max(umaxOf(e->k[1],d-1),umaxOf(e->k[2],d-1));
  case O_AND: return std::min(umaxOf(e->k[0],d-1),umaxOf(e->k[1],d-1));
  case O_UREM: if(e->k[1]->isC()&&e->k[1]->c) return std::min(e->k[1]->c-1,umaxOf(e->k[0],d-1)); return umaxOf(e->k[0],d-1);
  case O_UDIV: if(e->k[1]->isC()&&e->k[1]->c) return umaxOf(e->k[0],d-1)/e->k[1]->c; break;
  case O_ADD: if(e->w<=64){ u128 s=umaxOf(e->k[0],d-1)+umaxOf(e->k[1],d-1); if(s<=maskOf(e->w)) return s; } break;
  case O_MUL: if(e->w<=64){ u128 s=umaxOf(e->k[0],d-1)*umaxOf(e->k[1],d-1); if(s<=maskOf(e->w)) return s; } break;
  default: break; }
  return maskOf(e->w);
}
u128 uminOf(E e,int d){
  if(e->isC()) return e->c; if(d<=0) return 0;
  switch(e->op){
  case O_CONCAT: return uminOf(e->k[0],d-1)<<e->k[1]->w|uminOf(e->k[1],d-1);
  case O_ITE: return std::min(uminOf(e->k[1],d-1),uminOf(e->k[2],d-1));
  case O_OR: return std::max(uminOf(e->k[0],d-1),uminOf(e->k[1],d-1));
  case O_ADD: if(e->w<=64){ u128 s=umaxOf(e->k[0],d-1)+umaxOf(e->k[1],d-1); if(s<=maskOf(e->w)) return uminOf(e->k[0],d-1)+uminOf(e->k[1],d-1); } break;
  default: break; }
  return 0;
}
static uint64_t curGen=0; static ModelP curModel;
static u128 ev(E e){
  if(e->op==O_CONST) return e->c;
  if(e->egen==curGen) return e->ev;
  u128 r;
  switch(e->op){
  case O_VAR: r=curModel?curModel->get(e->aux)&maskOf(e->w):0; break;
  case O_ITE: r=ev(e->k[0])?ev(e->k[1]):ev(e->k[2]); break;
  case O_EQ: r=ev(e->k[0])==ev(e->k[1]); break;
  case O_ULT: r=ev(e->k[0])<ev(e->k[1]); break;
  case O_SLT: r=sx(ev(e->k[0]),e->k[0]->w)<sx(ev(e->k[1]),e->k[0]->w); break;
  case O_CONCAT: r=ev(e->k[0])<<e->k[1]->w|ev(e->k[1]); break;
  case O_EXTRACT: r=(ev(e->k[0])>>e->aux)&maskOf(e->w); break;
  case O_SEXT: r=(u128)sx(ev(e->k[0]),e->k[0]->w)&maskOf(e->w); break;
  case O_FADD:case O_FSUB:case O_FMUL:case O_FDIV:case O_FREM:case O_FEQ:case O_FLT:case O_FLE: r=foldF2(e->op,ev(e->k[0]),ev(e->k[1]),e->k[0]->w); break;
  case O_FSQRT:case O_FISNAN:case O_FTOSI:case O_FTOUI:case O_SITOF:case O_UITOF:case O_FTOF:case O_FRINT: r=foldF1(e->op,ev(e->k[0]),e->k[0]->w,e->w,e->aux); break;
  case O_AGG: r=0; break;
  default: r=foldBin(e->op,ev(e->k[0]),ev(e->k[1]),e->w);
  }
  e->egen=curGen; e->ev=r; return r;
}
u128 evalExpr(E e,const ModelP&m){ if(e->isC()) return e->c; if(m!=curModel||curGen==0){ curModel=m; curGen++; } return ev(e); }
std::string exprStr(E e,int d){
  static const char*n[]={"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","slt","ite","concat","extract","sext","fadd","fsub","fmul","fdiv","frem","fsqrt","feq","flt","fle","fisnan","ftosi","ftoui","sitof","uitof","ftof","frint","agg"};
  char b[64]; if(e->isC()){ snprintf(b,64,"%llu:%d",(unsigned long long)e->c,e->w); return b; }
  if(e->op==O_VAR) return varNames[e->aux];
  if(d<=0) return "...";
  std::string s=std::string("(")+n[e->op]; if(e->op==O_EXTRACT){ snprintf(b,64,"[%u+%u]",e->aux,e->w); s+=b; }
  for(unsigned i=0;i<e->nk;i++) s+=" "+exprStr(e->kid(i),d-1); return s+")";
}
