// Self-test of the simplifier: random expressions are built through the simplifying constructors while their
// value under a random assignment is computed independently; the evaluator must agree.
#include "../src/expr.h"
#include <random>
#include <cstdio>
static std::mt19937_64 R(1);
static uint64_t rnd(){ return R(); }
static uint64_t M(unsigned w){ return w>=64?~0ull:((1ull<<w)-1); }
static int64_t S(uint64_t v,unsigned w){ v&=M(w); if(w<64&&(v>>(w-1)&1)) v|=~M(w); return (int64_t)v; }
int main(int c,char**v){
  long n=c>1?atol(v[1]):300000; if(c>2) R.seed(atol(v[2]));
  std::vector<unsigned> vars,ws; for(unsigned w:{8,11,20,32,64,1,13,31}) { vars.push_back(newVar("v"+std::to_string(w),w)); ws.push_back(w); }
  for(long it=0;it<n;it++){
    auto m=std::make_shared<Model>(); m->v.resize(vars.size());
    struct N{E e;uint64_t v;}; std::vector<N> p;
    for(size_t i=0;i<vars.size();i++){ uint64_t x=rnd()&M(ws[i]); if(rnd()%4==0) x=rnd()%4?x&7:M(ws[i])-(x&3); m->v[vars[i]]=x; p.push_back({mkVar(vars[i],ws[i]),x}); }
    ModelP mp=m;
    int k=3+rnd()%14;
    for(int j=0;j<k;j++){
      N a=p[rnd()%p.size()]; unsigned w=a.e->w; N r; bool ok=true;
      auto fit=[&](N b)->N{ if(b.e->w==w) return b; if(b.e->w>w) return {mkExtract(b.e,0,w),b.v&M(w)}; if(rnd()&1) return {mkZExt(b.e,w),b.v}; return {mkSExt(b.e,w),(uint64_t)S(b.v,b.e->w)&M(w)}; };
      N b=fit(p[rnd()%p.size()]); if(rnd()%3){ static const uint64_t cs[]={1,2,3,7,10,60,86400,1000,1000000,2000000,1400000000ull,0,~0ull,~0ull-999,60,24,255,256,1400000000000000ull}; uint64_t cv=(rnd()%3?cs[rnd()%19]:rnd())&M(w); b={mkConst(cv,w),cv}; }
      uint64_t x=a.v,y=b.v,mk=M(w);
      switch(rnd()%20){
      case 0: case 1: if(rnd()%3==0&&w>=16){ static const uint64_t ks[]={1000,1000000,10000,100}; uint64_t kk=ks[rnd()%4]&mk; N z=p[rnd()%p.size()]; N f=fit(z); E t=mkBin(O_MUL,f.e,mkConst(kk,w)); r={mkBin(O_ADD,t,b.e),(f.v*kk+y)&mk}; break; } r={mkBin(O_ADD,a.e,b.e),(x+y)&mk}; break;
      case 2: r={mkBin(O_SUB,a.e,b.e),(x-y)&mk}; break;
      case 3: r={mkBin(O_MUL,a.e,b.e),(x*y)&mk}; break;
      case 4: if(y) r={mkBin(O_UDIV,a.e,b.e),x/y}; else ok=false; break;
      case 5: if(y) r={mkBin(O_UREM,a.e,b.e),x%y}; else ok=false; break;
      case 6: { int64_t p1=S(x,w),q=S(y,w); if(q&&q!=-1) r={mkBin(O_SDIV,a.e,b.e),(uint64_t)(p1/q)&mk}; else ok=false; break; }
      case 7: { int64_t p1=S(x,w),q=S(y,w); if(q&&q!=-1) r={mkBin(O_SREM,a.e,b.e),(uint64_t)(p1%q)&mk}; else ok=false; break; }
      case 8: r={mkBin(O_AND,a.e,b.e),x&y}; break;
      case 9: r={mkBin(O_OR,a.e,b.e),x|y}; break;
      case 10: r={mkBin(O_XOR,a.e,b.e),x^y}; break;
      case 11: { unsigned s=rnd()%w; r={mkBin(O_SHL,a.e,mkConst(s,w)),(x<<s)&mk}; break; }
      case 12: { unsigned s=rnd()%w; if(rnd()&1) r={mkBin(O_LSHR,a.e,mkConst(s,w)),x>>s}; else r={mkBin(O_ASHR,a.e,mkConst(s,w)),(uint64_t)(S(x,w)>>s)&mk}; break; }
      case 13: r={mkEq(a.e,b.e),x==y}; break;
      case 14: r={mkUlt(a.e,b.e),x<y}; break;
      case 15: case 16: r={mkSlt(a.e,b.e),S(x,w)<S(y,w)}; break;
      case 17: { N c1=p[rnd()%p.size()]; E cc=mkExtract(c1.e,0,1); r={mkIte(cc,a.e,b.e),(c1.v&1)?x:y}; break; }
      case 18: { if(w<2){ok=false;break;} unsigned o=rnd()%w,l=1+rnd()%(w-o); r={mkExtract(a.e,o,l),(x>>o)&M(l)}; break; }
      case 19: { unsigned t=w+1+rnd()%64; if(t>64){ok=false;break;} if(rnd()&1) r={mkZExt(a.e,t),x}; else if(rnd()&1) r={mkSExt(a.e,t),(uint64_t)S(x,w)&M(t)}; else { N z=p[rnd()%p.size()]; if(z.e->w+w>64){ok=false;break;} r={mkConcat(z.e,a.e),(z.v<<w)|x}; } break; }
      }
      if(!ok) continue;
      uint64_t g=(uint64_t)evalExpr(r.e,mp);
      if(g!=r.v){ printf("MISMATCH it=%ld w=%d want %llx got %llx: %s\n",it,r.e->w,(unsigned long long)r.v,(unsigned long long)g,exprStr(r.e,8).c_str()); return 1; }
      p.push_back(r);
    }
  }
  printf("ok %ld expressions, %zu nodes\n",n,exprCount()); return 0;
}
