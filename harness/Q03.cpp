/*SPEC
BOUNDS='every timeout of 0 to 2047 ms (symbolic; 0 to 255 ms with two readers) and 100000 ms, starting at any microsecond of a second; one or two timed readers against up to two writers; up to one spurious wake-up, at any moment up to the deadline (of the first two seconds); every interleaving of their synchronisation operations and every moment of expiry'
OUTSIDE='timeouts beyond 100 s and negative lock timeouts; the operating system delaying a thread that could run (the model lets time pass only while a thread waits)'
TY=['queue','wait','prio','mapget','mapread']
for t in range(5):
  case('idle.'+TY[t],ty=t,conc=True,reach=['timeout'],time=300)
  case('idlespur.'+TY[t],ty=t,spur=1,conc=True,reach=['timeout'],time=300,f='idle')
  case('rd.'+TY[t],ty=t,conc=True,reach=['timeout','data'],time=300)
  case('rdspur.'+TY[t],ty=t,spur=1,conc=True,reach=['timeout','data'],time=300,f='rd')
  case('two.'+TY[t],ty=t,conc=True,reach=['timeout','data'],time=400)
  case('long.'+TY[t],ty=t,big=100000,conc=True,reach=['timeout','data'],time=300,f='rd')
case('either0',conc=True,reach=['timeout'],time=300)
case('either1',conc=True,reach=['timeout','data'],time=300)
case('eitherlong',big=100000,conc=True,reach=['timeout','data'],time=300,f='either1')
case('lock',conc=True,reach=['timeout','got'],time=300)
case('locklong',big=100000,conc=True,reach=['timeout','got'],time=300,f='lock')
case('lockfree',conc=True,reach=['got'],time=300)
case('sigwait',conc=True,reach=['early','late','none'],time=300)
*/
#include "symx.h"
#include "env.h"
#include "Interthread.h"
#include "Configuration.h"
ConfigurationTable gConfig;
struct E { int id; E(int i):id(i){} bool operator>(const E&o)const{ return id>o.id; } };
static int64_t symMs(int lo,int bits=11){ int b=sym_param("big",0); if(b) return b; int64_t v=(int64_t)sym_bits(bits,"ms"); SYM_ASSUME(v>=lo); return v; }
static void startClock(){ uint64_t m=sym_bits(10,"m"),u=sym_bits(10,"u"); SYM_ASSUME(m<1000); SYM_ASSUME(u<1000); env_now_us+=(int64_t)(m*1000+u); env_spurious=sym_param("spur",0); env_spurious_later=1; }
struct Src { virtual E*read(unsigned ms)=0; virtual void write(E*)=0; virtual size_t size()=0; virtual bool keeps(){ return false; } virtual ~Src(){} };
template<class Q> struct SrcQ : Src { Q q; E*read(unsigned ms){ return q.read(ms); } void write(E*e){ q.write(e); } size_t size(){ return q.size(); } };
struct SrcMG : Src { InterthreadMap<int,E> q; E*read(unsigned ms){ E*e=0; bool b=q.get(7,e,ms); SYM_ASSERT(b==(e!=0),"a timed get says whether it found the key"); return e; } void write(E*e){ q.write(7,e); } size_t size(){ return q.size(); } };
struct SrcMR : Src { InterthreadMap<int,E> q; E*read(unsigned ms){ E*e=q.read(7,ms); if(e) SYM_ASSERT(q.readNoBlock(7)==e,"reading keeps the value"); return e; } bool keeps(){ return true; } void write(E*e){ q.write(7,e); } size_t size(){ return q.size(); } };
static Src*mk(){ switch(sym_param("ty",0)){ case 0: return new SrcQ<InterthreadQueue<E> >; case 1: return new SrcQ<InterthreadQueueWithWait<E> >; case 2: return new SrcQ<InterthreadPriorityQueue<E> >; case 3: return new SrcMG; default: return new SrcMR; } }
static Src*gS; static int64_t gT0[2],gT1[2],gMs[2],gW=-1; static E*gR[2];
static void*reader(void*a){ long k=(long)a; gT0[k]=env_now_us; gR[k]=gS->read((unsigned)gMs[k]); gT1[k]=env_now_us; return 0; }
static void*writer(void*a){ gS->write(new E((int)(long)a)); gW=env_now_us; return 0; }
// the documented precision is 2 ms: a read with less than that left gives up
static void emptyOk(int k){ SYM_ASSERT(gT1[k]>gT0[k]+gMs[k]*1000-2000,"a timed read returns empty only at its deadline"); }
// waits are resumed in whole milliseconds
static int slack(){ return sym_param("spur",0)?1000:1; }
static void idle(){ startClock(); gS=mk(); gMs[0]=symMs(0); reader(0); SYM_ASSERT(gR[0]==0,"nothing was written"); emptyOk(0); SYM_ASSERT(gT1[0]<gT0[0]+gMs[0]*1000+slack(),"a timed read returns at its deadline"); sym_reach("timeout"); delete gS; }
static void rd(){ startClock(); gS=mk(); gMs[0]=symMs(0); Thread r,w; r.start(reader,0); w.start(writer,(void*)1); r.join(); w.join();
  SYM_ASSERT(gT1[0]<gT0[0]+gMs[0]*1000+slack(),"a timed read returns by its deadline");
  if(gR[0]){ SYM_ASSERT(gR[0]->id==1&&gS->size()==(gS->keeps()?1:0),"what was written is received"); if(!gS->keeps()) delete gR[0]; sym_reach("data"); } else { emptyOk(0); SYM_ASSERT(gW>gT0[0]+gMs[0]*1000-2000,"an element available before the deadline is received"); SYM_ASSERT(gS->size()==1,"nothing is lost"); sym_reach("timeout"); } delete gS; }
// two timed readers, one element
static void two(){ startClock(); gS=mk(); gMs[0]=50; gMs[1]=symMs(1,8); Thread r,r2,w; r.start(reader,0); r2.start(reader,(void*)1); w.start(writer,(void*)1); r.join(); r2.join(); w.join(); int n=(gR[0]!=0)+(gR[1]!=0);
  SYM_ASSERT((gS->keeps()?0:n)+(int)gS->size()==1,"the element is received once or still held"); for(int k=0;k<2;k++) if(!gR[k]) emptyOk(k); if(n==0){ sym_reach("timeout"); for(int k=0;k<2;k++) SYM_ASSERT(gW>gT0[k]+gMs[k]*1000-2000,"an element available before a deadline is received"); } else sym_reach("data"); delete gS; }
typedef InterthreadQueue<E> IQ; static IQ*gA,*gB;
static void*eitherR(void*){ gT0[0]=env_now_us; gA->iqWaitForEither(*gB,(unsigned)gMs[0]); gT1[0]=env_now_us; gR[0]=gA->front()?gA->front():gB->front(); return 0; }
static void*eitherW(void*a){ ((long)a?gB:gA)->write(new E(1)); gW=env_now_us; return 0; }
static void either0(){ startClock(); IQ b,a; a.iqConnect(b); gA=&a; gB=&b; gMs[0]=symMs(1); eitherR(0); emptyOk(0); SYM_ASSERT(gT1[0]<=gT0[0]+gMs[0]*1000,"a timed wait returns at its deadline"); sym_reach("timeout"); }
static void either1(){ startClock(); IQ b,a; a.iqConnect(b); gA=&a; gB=&b; gMs[0]=symMs(1); Thread r,w; r.start(eitherR,0); w.start(eitherW,(void*)(long)sym_choice(2,"which")); r.join(); w.join(); SYM_ASSERT(gT1[0]<=gT0[0]+gMs[0]*1000,"a timed wait returns by its deadline"); if(gT1[0]<=gT0[0]+gMs[0]*1000-2000){ SYM_ASSERT(gR[0]!=0,"a timed wait returns early only for an element"); sym_reach("data"); } else sym_reach("timeout"); }
static Mutex*gM; static int gIn=0,gHeld=0; static bool gOk; static int64_t gRel=-1;
static void*holder(void*){ gM->lock(); gIn++; gHeld=1; SYM_ASSERT(gIn==1,"one holder at a time"); env_yield(); SYM_ASSERT(gIn==1,"one holder at a time"); gIn--; gM->unlock(); gRel=env_now_us; return 0; }
static void*timed(void*){ gT0[0]=env_now_us; gOk=gM->timedlock((int)gMs[0]); gT1[0]=env_now_us; if(gOk){ SYM_ASSERT(gIn==0,"one holder at a time"); gIn++; SYM_ASSERT(gM->lockcnt()==1,"a lock acquired by a timed lock is counted"); env_yield(); SYM_ASSERT(gIn==1,"one holder at a time"); gIn--; gM->unlock(); } return 0; }
static void lock(){ startClock(); Mutex m; gM=&m; gMs[0]=symMs(0); Thread h,t; h.start(holder,0); t.start(timed,0); h.join(); t.join(); SYM_ASSERT(gT1[0]<=gT0[0]+gMs[0]*1000,"a timed lock returns by its deadline"); if(!gOk){ SYM_ASSERT(gT1[0]>=gT0[0]+gMs[0]*1000,"a timed lock fails only at its deadline"); sym_reach("timeout"); } else sym_reach("got"); SYM_ASSERT(m.lockcnt()==0,"released"); SYM_ASSERT(m.trylock(),"the mutex is free again"); m.unlock(); }
static void lockfree(){ startClock(); Mutex m; int64_t ms=symMs(0); int64_t t=env_now_us; int d=sym_choice(3,"depth"); for(int i=0;i<d;i++) m.lock(); SYM_ASSERT(m.timedlock((int)ms),"a free mutex is acquired"); SYM_ASSERT(env_now_us==t,"without waiting"); SYM_ASSERT(m.lockcnt()==d+1,"nested"); for(int i=0;i<=d;i++) m.unlock(); SYM_ASSERT(m.lockcnt()==0,"released"); sym_reach("got"); }
static Signal*gSig; static int gFlag;
static void*sigS(void*){ ScopedLock l(*gM); gFlag=1; gSig->signal(); return 0; }
static void sigwait(){ startClock(); Mutex m; Signal s; gM=&m; gSig=&s; long ms=(long)symMs(0)-1000; Thread t; m.lock(); t.start(sigS,0); int64_t t0=env_now_us; s.wait(m,ms); int64_t t1=env_now_us; SYM_ASSERT(m.lockcnt()==1,"the mutex is held again"); if(ms<=0){ SYM_ASSERT(t1==t0&&!gFlag,"a wait whose time has passed returns at once and keeps the mutex"); sym_reach("none"); } else if(gFlag){ SYM_ASSERT(t1<=t0+ms*1000,"in time"); sym_reach("early"); } else { SYM_ASSERT(t1==t0+ms*1000,"an unsignalled wait lasts as long as asked"); sym_reach("late"); } m.unlock(); t.join(); }
extern "C" void harness_main(void){ H(idle) H(rd) H(two) H(either0) H(either1) H(lock) H(lockfree) H(sigwait) sym_fail("unknown case"); }
