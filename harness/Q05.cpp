/*SPEC
BOUNDS='up to 4 elements of arbitrary 32-bit priorities, up to 3 writers and 2 readers, every interleaving of their synchronisation operations; sequences of 6 operations in one thread; the default and a user-supplied ordering'
OUTSIDE='more threads or elements; orderings that are not a strict weak order'
for c in range(2):
  case('w1r1.%d'%c,cmp=c,writers=1,per=3,readers=1,conc=True,reach=['done'],time=400,f='wr')
  case('w2r1.%d'%c,cmp=c,writers=2,per=1,readers=1,conc=True,reach=['done'],time=400,f='wr')
  case('w1r2.%d'%c,cmp=c,writers=1,per=2,readers=2,conc=True,reach=['done'],time=400,f='wr')
  case('spur.%d'%c,cmp=c,writers=1,per=2,readers=2,spur=2,conc=True,reach=['done'],time=400,f='wr')
  case('w3r1.%d'%c,cmp=c,writers=3,per=1,readers=1,conc=True,reach=['done'],time=500,f='wr')
  case('w2r2.%d'%c,cmp=c,writers=2,per=1,readers=2,conc=True,reach=['done'],time=500,f='wr')
  case('w2p2r2.%d'%c,cmp=c,writers=2,per=2,readers=2,conc=True,reach=['done'],time=900,f='wr',tier='thorough')
  case('nb.%d'%c,cmp=c,conc=True,reach=['done'],time=400,f='nb')
  case('clear.%d'%c,cmp=c,conc=True,reach=['done'],time=400,f='clr')
  case('seq.%d'%c,cmp=c,n=5,conc=True,reach=['done'],time=500,f='seq')
  case('sort.%d'%c,cmp=c,n=4,conc=True,reach=['done'],time=500,f='sorted')
  case('seqlong.%d'%c,cmp=c,n=6,conc=True,reach=['done'],time=900,f='seq',tier='thorough')
  case('sortlong.%d'%c,cmp=c,n=5,conc=True,reach=['done'],time=900,f='sorted',tier='thorough')
*/
#include "symx.h"
#include "env.h"
#include "Interthread.h"
#include "Configuration.h"
ConfigurationTable gConfig;
static int gDel[16]; static int gPri[16],gCmp;
struct E { int id; int pri; E(int i):id(i),pri(gPri[i]){} bool operator>(const E&o)const{ return pri>o.pri; } ~E(){ gDel[id]++; } };
struct Big { bool operator()(const E*a,const E*b){ return a->pri<b->pri; } }; // the largest first
// does a come before b in the queue's order?
static bool before(int a,int b){ return gCmp?gPri[a]>gPri[b]:gPri[a]<gPri[b]; }
static void pris(int n){ gCmp=sym_param("cmp",0); for(int i=0;i<n;i++) gPri[i]=sym<int32_t>("priority"); }
template<class Q> struct S { static Q*q; static int per; static int got[4][8],n[4]; static long need[4]; static int nb[4];
  static void*writer(void*a){ long w=(long)a; for(int i=0;i<per;i++) q->write(new E(w*4+i)); return 0; }
  static void*reader(void*a){ long r=(long)a; for(int i=0;i<need[r];i++){ E*e=q->read(); SYM_ASSERT(e!=0,"a blocking read returns an element"); got[r][n[r]++]=e->id; SYM_ASSERT(e->pri==gPri[e->id],"elements arrive unchanged"); delete e; } return 0; }
  static void*rdnb(void*a){ long k=(long)a; int64_t t0=env_now_us; E*e=k?q->read(40u):q->readNoBlock(); if(k&&!e) SYM_ASSERT(env_now_us>t0+38000,"a timed read returns empty only after its deadline"); nb[k]=e?e->id:-1; delete e; return 0; }
  static void*clearer(void*){ q->clear(); return 0; } };
template<class Q> Q*S<Q>::q; template<class Q> int S<Q>::per; template<class Q> int S<Q>::got[4][8]; template<class Q> int S<Q>::n[4]; template<class Q> long S<Q>::need[4]; template<class Q> int S<Q>::nb[4];
template<class Q> void wrT(){ typedef S<Q> T; env_spurious=sym_param("spur",0); int W=sym_param("writers",1),R=sym_param("readers",1); T::per=sym_param("per",1); int total=W*T::per; pris(W*4); { Q q; T::q=&q; for(int i=0;i<R;i++) T::need[i]=total/R+(i<total%R);
    Thread t[8]; for(long i=0;i<R;i++) t[i].start(T::reader,(void*)i); for(long i=0;i<W;i++) t[R+i].start(T::writer,(void*)i); for(int i=0;i<W+R;i++) t[i].join(); SYM_ASSERT(q.size()==0&&q.readNoBlock()==0,"everything written was read"); }
  int seen[16]={0}; for(int r=0;r<R;r++) for(int k=0;k<T::n[r];k++) seen[T::got[r][k]]++; for(int w=0;w<W;w++) for(int i=0;i<T::per;i++) SYM_ASSERT(seen[w*4+i]==1&&gDel[w*4+i]==1,"every element is received exactly once");
  // one reader, one writer: an element overtaken by a later-ordered one of the same writer was not yet held, so it was written later
  if(R==1) for(int a=0;a<T::n[0];a++) for(int b=a+1;b<T::n[0];b++){ int x=T::got[0][a],y=T::got[0][b]; if(x/4==y/4&&y<x) SYM_ASSERT(!before(y,x),"every read returns an element that no held element precedes"); }
  sym_reach("done"); }
template<class Q> void nbT(){ typedef S<Q> T; pris(4); { Q q; T::q=&q; T::per=2; { Thread w,a,b; w.start(T::writer,0); a.start(T::rdnb,0); b.start(T::rdnb,(void*)1); w.join(); a.join(); b.join(); } int seen[2]={0,0}; int left=2; for(int k=0;k<2;k++) if(T::nb[k]>=0){ seen[T::nb[k]]++; left--; } SYM_ASSERT(q.size()==(size_t)left,"size is the number held"); E*p=q.peek(); SYM_ASSERT((p!=0)==(left>0),"peek sees an element exactly when one is held"); E*e,*f=0; while((e=q.readNoBlock())){ if(!f){ f=e; SYM_ASSERT(e==p,"peek shows what the next read returns"); } else { SYM_ASSERT(!before(e->id,f->id),"every read returns an element that no held element precedes"); } seen[e->id]++; if(e!=f) delete e; } if(f) delete f; SYM_ASSERT(seen[0]==1&&seen[1]==1,"every element is received exactly once"); } SYM_ASSERT(gDel[0]==1&&gDel[1]==1,"nothing is deleted by the queue"); sym_reach("done"); }
template<class Q> void clrT(){ typedef S<Q> T; pris(4); int64_t live=sym_live_blocks(); { Q q; T::q=&q; T::per=2; { Thread w,c,r; w.start(T::writer,0); c.start(T::clearer,0); r.start(T::rdnb,0); w.join(); c.join(); r.join(); } SYM_ASSERT(gDel[0]+gDel[1]+(int)q.size()==2,"each element was cleared, read or is still held"); } SYM_ASSERT(gDel[0]==1&&gDel[1]==1,"each element is deleted exactly once"); SYM_ASSERT(sym_live_blocks()==live,"nothing is leaked"); sym_reach("done"); }
// one thread, every sequence of operations: each read returns a held element that no held element precedes
template<class Q> void seqT(){ int n=sym_param("n",6); pris(n); int64_t live=sym_live_blocks(); int held[16]={0},ever[16]={0},cnt=0; { Q q; for(int i=0;i<n;i++){ SYM_ASSERT(q.size()==(size_t)cnt,"size is the number held"); int op=sym_choice(4,"op"); if(op==0){ q.write(new E(i)); held[i]=ever[i]=1; cnt++; continue; } E*e; if(op==1) e=q.readNoBlock(); else if(op==2) e=q.read(10u); else { e=q.peek(); SYM_ASSERT((e!=0)==(cnt>0),"peek sees an element exactly when one is held"); E*d=cnt?q.read():0; SYM_ASSERT(d==e,"peek shows what the next read returns"); }
      SYM_ASSERT((e!=0)==(cnt>0),"a read returns an element exactly when one is held"); if(e){ SYM_ASSERT(held[e->id]==1&&e->pri==gPri[e->id],"what is read is held"); bool ok=true; for(int k=0;k<n;k++) if(held[k]) ok=ok&!before(k,e->id); SYM_ASSERT(ok,"every read returns an element that no held element precedes"); held[e->id]=0; cnt--; delete e; } } }
  for(int k=0;k<n;k++) SYM_ASSERT(gDel[k]==ever[k],"each element is deleted exactly once"); SYM_ASSERT(sym_live_blocks()==live,"nothing is leaked"); sym_reach("done"); }
template<class Q> void sortedT(){ int n=sym_param("n",4); pris(n); Q q; for(int i=0;i<n;i++) q.write(new E(i)); int seen[16]={0}; E*last=0; for(int i=0;i<n;i++){ E*e=q.readNoBlock(); SYM_ASSERT(e&&!seen[e->id],"each element is delivered once"); seen[e->id]=1; if(last){ SYM_ASSERT(!before(e->id,last->id),"every read returns an element that no held element precedes"); delete last; } last=e; } delete last; SYM_ASSERT(q.size()==0&&q.peek()==0,"nothing is left"); sym_reach("done"); }
#define DISP(F) static void F(){ if(sym_param("cmp",0)) F##T<InterthreadPriorityQueue<E,std::vector<E*>,Big> >(); else F##T<InterthreadPriorityQueue<E> >(); }
DISP(wr) DISP(nb) DISP(clr) DISP(seq) DISP(sorted)
extern "C" void harness_main(void){ H(wr) H(nb) H(clr) H(seq) H(sorted) sym_fail("unknown case"); }
