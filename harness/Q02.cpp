/*SPEC
BOUNDS='up to 2 writers x 2 writers-or-readers with 1..2 operations each (4 threads at most besides the main one), every interleaving of their synchronisation operations and of any unsynchronised shared access; all three element stores (pointer list, pointer FIFO, intrusive list) and the waiting queue'
OUTSIDE='more threads or longer operation sequences; weak-memory effects beyond data races (unsynchronised shared accesses are reported to the scheduler as interleaving points)'
TY=['list','fifo','slist','wait']
for t in range(4):
  case('w1r1.'+TY[t],ty=t,writers=1,per=2,readers=1,conc=True,reach=['done'],time=400,f='wr')
  case('w2r1.'+TY[t],ty=t,writers=2,per=1,readers=1,conc=True,reach=['done'],time=400,f='wr')
  case('w1r2.'+TY[t],ty=t,writers=1,per=2,readers=2,conc=True,reach=['done'],time=400,f='wr')
  case('w2r2.'+TY[t],ty=t,writers=2,per=1,readers=2,conc=True,reach=['done'],time=600,f='wr')
  case('w2p2r1.'+TY[t],ty=t,writers=2,per=2,readers=1,conc=True,reach=['done'],time=600,f='wr')
  case('spur.'+TY[t],ty=t,writers=1,per=2,readers=2,spur=2,conc=True,reach=['done'],time=400,f='wr')
  case('nb.'+TY[t],ty=t,conc=True,reach=['done'],time=400,f='nb')
  case('clear.'+TY[t],ty=t,conc=True,reach=['done'],time=400,f='clr')
  case('seq.'+TY[t],ty=t,n=6,conc=True,reach=['done'],time=400,f='seq')
  if t<3: case('w2p2r2.'+TY[t],ty=t,writers=2,per=2,readers=2,conc=True,reach=['done'],time=900,f='wr',tier='thorough')
  if t<3: case('w3r2.'+TY[t],ty=t,writers=3,per=1,readers=3,conc=True,reach=['done'],time=900,f='wr',tier='thorough')
case('flush',conc=True,reach=['done'],time=400)
case('connect',conc=True,reach=['done'],time=400)
case('iter',conc=True,reach=['done'],time=400)
*/
#include "symx.h"
#include "env.h"
#include "Interthread.h"
#include "Configuration.h"
ConfigurationTable gConfig;
static int gDel[16]; static uint32_t gV[16]; static void payloads(int n){ for(int i=0;i<n;i++) gV[i]=sym<uint32_t>("payload"); }
// for an arbitrary value x: as many elements carrying x came out as went in
static void sameMultiset(const uint32_t*in,int n,const uint32_t*out,int m,const char*msg){ uint32_t x=sym<uint32_t>("x"); uint64_t a=0,b=0; for(int i=0;i<n;i++) a+=__sx_ite(in[i]==x,1,0); for(int i=0;i<m;i++) b+=__sx_ite(out[i]==x,1,0); SYM_ASSERT(a==b,msg); }
struct E : public SingleLinkListNode { int id; uint32_t v; E(int i):id(i),v(gV[i]){} E*next(){ return (E*)mNext; } void setNext(E*p){ mNext=p; } ~E(){ gDel[id]++; } };
template<class Q> struct Front { static void put(Q&q,E*e){ q.write_front(e); } static const bool has=true; };
template<> struct Front<InterthreadQueueWithWait<E> > { static void put(InterthreadQueueWithWait<E>&q,E*e){ q.write(e); } static const bool has=false; };
struct Got { int id[8]; uint32_t v[8]; int n; };
template<class Q> struct Wr { static Q*q; static int per; static Got got[4]; static void*writer(void*a){ long w=(long)a; for(int i=0;i<per;i++) q->write(new E(w*4+i)); return 0; } static long need[4]; static void*reader(void*a){ long r=(long)a; for(int i=0;i<need[r];i++){ E*e=q->read(); SYM_ASSERT(e!=0,"a blocking read returns an element"); got[r].v[got[r].n]=e->v; got[r].id[got[r].n++]=e->id; delete e; } return 0; } };
template<class Q> Q*Wr<Q>::q; template<class Q> int Wr<Q>::per; template<class Q> Got Wr<Q>::got[4]; template<class Q> long Wr<Q>::need[4];
// writers write, readers block until everything written has been read
template<class Q> void wrT(){ typedef Wr<Q> S; env_spurious=sym_param("spur",0); int W=sym_param("writers",1),R=sym_param("readers",1); S::per=sym_param("per",1); int total=W*S::per; payloads(W*4); { Q q; S::q=&q; for(int i=0;i<R;i++) S::need[i]=total/R+(i<total%R);
  Thread t[8]; for(long i=0;i<R;i++) t[i].start(S::reader,(void*)i); for(long i=0;i<W;i++) t[R+i].start(S::writer,(void*)i); for(int i=0;i<W+R;i++) t[i].join(); SYM_ASSERT(q.size()==0,"everything written was read"); SYM_ASSERT(q.readNoBlock()==0,"nothing is left"); }
  int seen[16]={0}; for(int r=0;r<R;r++){ int last[4]={-1,-1,-1,-1}; for(int k=0;k<S::got[r].n;k++){ int id=S::got[r].id[k]; seen[id]++; SYM_ASSERT(id%4>last[id/4],"elements of one writer are received in order"); last[id/4]=id%4; } }
  for(int w=0;w<W;w++) for(int i=0;i<S::per;i++) SYM_ASSERT(seen[w*4+i]==1&&gDel[w*4+i]==1,"every element is received exactly once");
  uint32_t in[16],out[16]; int n=0,m=0; for(int w=0;w<W;w++) for(int i=0;i<S::per;i++) in[n++]=gV[w*4+i]; for(int r=0;r<R;r++) for(int k=0;k<S::got[r].n;k++) out[m++]=S::got[r].v[k]; sameMultiset(in,n,out,m,"what is received is what was sent"); sym_reach("done"); }
// non-blocking and timed readers against a writer: what was read plus what is left is what was written
template<class Q> struct Nb { static Q*q; static E*r[4]; static void*writer(void*){ q->write(new E(0)); Front<Q>::put(*q,new E(1)); return 0; } static void*reader(void*a){ long k=(long)a; r[k]=k?q->read(50):q->readNoBlock(); return 0; } };
template<class Q> Q*Nb<Q>::q; template<class Q> E*Nb<Q>::r[4];
template<class Q> void nbT(){ typedef Nb<Q> S; payloads(2); uint32_t out[4]; int m=0; { Q q; S::q=&q; Thread w,a,b; w.start(S::writer,0); a.start(S::reader,0); b.start(S::reader,(void*)1); w.join(); a.join(); b.join(); int n=2; E*x[4]={S::r[0],S::r[1],0,0}; int seen[2]={0,0}; for(int i=0;i<2;i++) if(x[i]){ seen[x[i]->id]++; out[m++]=x[i]->v; n--; delete x[i]; }
    SYM_ASSERT(q.size()==(size_t)n,"size is the number held"); E*e; while((e=q.readNoBlock())){ seen[e->id]++; out[m++]=e->v; delete e; n--; } SYM_ASSERT(n==0&&q.size()==0,"the queue held exactly the rest"); SYM_ASSERT(seen[0]==1&&seen[1]==1,"every element is received exactly once"); } SYM_ASSERT(gDel[0]==1&&gDel[1]==1,"nothing is deleted by the queue"); sameMultiset(gV,2,out,m,"what is received is what was sent"); sym_reach("done"); }
template<class Q> struct Clr { static Q*q; static E*r; static void*writer(void*){ q->write(new E(0)); q->write(new E(1)); return 0; } static void*clearer(void*){ q->clear(); return 0; } static void*reader(void*){ r=q->readNoBlock(); return 0; } };
template<class Q> Q*Clr<Q>::q; template<class Q> E*Clr<Q>::r;
template<class Q> void clrT(){ typedef Clr<Q> S; int64_t live=sym_live_blocks(); { Q q; S::q=&q; S::r=0; { Thread w,c,r; w.start(S::writer,0); c.start(S::clearer,0); r.start(S::reader,0); w.join(); c.join(); r.join(); } int left=q.size(); int got=S::r!=0; SYM_ASSERT(gDel[0]+gDel[1]+left+got==2,"each element was cleared, read or is still held"); if(S::r){ SYM_ASSERT(gDel[S::r->id]==0,"an element that was read is not deleted"); delete S::r; } if(left==2||sym_choice(2,"again")) { q.clear(); SYM_ASSERT(q.size()==0,"cleared"); } }
  SYM_ASSERT(gDel[0]==1&&gDel[1]==1,"each element is deleted exactly once"); SYM_ASSERT(sym_live_blocks()==live,"nothing is leaked"); sym_reach("done"); }
// one thread: every sequence of operations behaves as on a sequence
template<class Q> void seqT(){ int n=sym_param("n",6); payloads(n); int64_t live=sym_live_blocks(); int want[16]={0}; { Q q; int a[64],h=32,t=32; for(int i=0;i<n;i++){ SYM_ASSERT(q.size()==(size_t)(t-h),"size is the number held"); switch(sym_choice(Front<Q>::has?6:5,"op")){
    case 0: q.write(new E(i)); a[t++]=i; break; case 1: { E*e=q.readNoBlock(); SYM_ASSERT((e!=0)==(t>h),"a non-blocking read returns an element exactly when one is held"); if(e){ SYM_ASSERT(e->id==a[h]&&e->v==gV[a[h]],"elements come out in order"); h++; want[e->id]=1; delete e; } break; }
    case 2: { if(t==h) break; E*e=q.read(); SYM_ASSERT(e&&e->id==a[h]&&e->v==gV[a[h]],"elements come out in order"); h++; want[e->id]=1; delete e; break; } case 3: { E*e=q.read(10); SYM_ASSERT((e!=0)==(t>h),"a timed read returns an element when one is held"); if(e){ SYM_ASSERT(e->id==a[h]&&e->v==gV[a[h]],"elements come out in order"); h++; want[e->id]=1; delete e; } break; }
    case 4: q.clear(); while(h<t) want[a[h++]]=1; for(int k=0;k<n;k++) SYM_ASSERT(gDel[k]==want[k],"clearing deletes exactly the elements held"); break;
    default: Front<Q>::put(q,new E(i)); a[--h]=i; } } while(h<t) want[a[h++]]=1; }
  for(int k=0;k<n;k++) SYM_ASSERT(gDel[k]==want[k],"each element held is deleted exactly once with the queue"); SYM_ASSERT(sym_live_blocks()==live,"nothing is leaked"); sym_reach("done"); }
#define DISP(F) static void F(){ switch(sym_param("ty",0)){ case 0: F##T<InterthreadQueue<E> >(); break; case 1: F##T<InterthreadQueue<E,PointerFIFO_> >(); break; case 2: F##T<InterthreadQueue<E,SingleLinkList<E> > >(); break; default: F##T<InterthreadQueueWithWait<E> >(); } }
struct PointerFIFO_ : public PointerFIFO { typedef void*iterator; typedef void*const_iterator; };
DISP(wr) DISP(nb) DISP(clr) DISP(seq)
typedef InterthreadQueue<E> IQ; static IQ*gA,*gB; static E*gR[2]; static int gCnt;
static void*flw(void*){ gA->write(new E(0)); gA->write(new E(1)); return 0; } static void*flf(void*){ gA->flushNoDelete(); return 0; }
static void flush(){ IQ q; gA=&q; Thread w,f; w.start(flw,0); f.start(flf,0); w.join(); f.join(); SYM_ASSERT(gDel[0]==0&&gDel[1]==0,"flushing deletes nothing"); size_t n=q.size(); E*a=q.front(),*b=q.readNoBlock(); SYM_ASSERT(a==b&&(b!=0)==(n>0),"front is the next element"); if(n==1) SYM_ASSERT(b->id==1,"what is flushed is a prefix"); if(n==2) SYM_ASSERT(b->id==0,"order is kept"); sym_reach("done"); }
// two connected queues: a waiter on either wakes for both
static void*cw(void*a){ (a?gB:gA)->write(new E((long)a)); return 0; }
static void*cr(void*){ for(int i=0;i<2;i++){ gA->iqWaitForEither(*gB,0); E*e=gA->readNoBlock(); if(!e) e=gB->readNoBlock(); SYM_ASSERT(e!=0,"waiting for either queue returns when one has an element"); gR[gCnt++]=e; } return 0; }
static void connect(){ IQ b,a; a.iqConnect(b); /* the lock lives in b */ gA=&a; gB=&b; Thread r,w1,w2; r.start(cr,0); w1.start(cw,0); w2.start(cw,(void*)1); r.join(); w1.join(); w2.join(); SYM_ASSERT(gCnt==2&&gR[0]->id!=gR[1]->id,"each element is received once"); SYM_ASSERT(a.size()==0&&b.size()==0,"nothing is left"); sym_reach("done"); }
// iterating under the queue's lock (connected or not) sees a consistent sequence
static int gSum; static void*ir(void*){ ScopedLock l(gA->qGetLock()); int k=0,last=-1; for(IQ::iterator i=gA->begin();i!=gA->end();++i){ SYM_ASSERT((*i)->id>last,"iteration is in order"); last=(*i)->id; k++; } SYM_ASSERT(k<=2,"iteration sees only what was written"); gSum=k; return 0; }
static void iter(){ IQ b,a; if(sym_choice(2,"connected")) a.iqConnect(b); gA=&a; Thread w,r; w.start(flw,0); r.start(ir,0); w.join(); r.join(); SYM_ASSERT(a.size()==2,"nothing is lost"); sym_reach("done"); }
extern "C" void harness_main(void){ H(wr) H(nb) H(clr) H(seq) H(flush) H(connect) H(iter) sym_fail("unknown case"); }
