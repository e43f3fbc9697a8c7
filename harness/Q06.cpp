/*SPEC
BOUNDS='up to 3 threads posting, acquiring and trying on one semaphore, any sequence of 6 operations in one thread; up to 2 threads waiting at any levels of 0 to 3 while up to 2 readers, a writer and a clearing thread change the queue; one or two spurious wake-ups; every interleaving of the synchronisation operations'
OUTSIDE='more threads; posting while a permit is outstanding adds none (the semaphore is binary, as documented by its flag)'
case('seq',n=6,conc=True,reach=['done'],time=300)
case('handoff',conc=True,reach=['done'],time=300)
case('handoffspur',spur=2,conc=True,reach=['done'],time=300,f='handoff')
case('pingpong',conc=True,reach=['done'],time=300)
case('two',conc=True,reach=['done'],time=300)
case('twospur',spur=2,conc=True,reach=['done'],time=300,f='two')
case('try',conc=True,reach=['got','none'],time=300,f='trying')
case('trytwo',conc=True,reach=['done'],time=300)
for i in range(3):
  case('low.%d'%i,n=i+1,conc=True,reach=['done'],time=400,f='low')
case('lowspur',n=2,spur=2,conc=True,reach=['done'],time=400,f='low')
case('lowtwo',n=2,two=1,conc=True,reach=['done'],time=500,f='low')
case('lowtwo3',n=3,two=1,conc=True,reach=['done'],time=500,f='low')
case('lowclear',n=3,two=1,conc=True,reach=['done'],time=400)
case('lowwrite',conc=True,reach=['done'],time=500)
*/
#include "symx.h"
#include "env.h"
#include "Interthread.h"
#include "Configuration.h"
ConfigurationTable gConfig;
static Semaphore*gS; static int gGot[4];
static void seq(){ int n=sym_param("n",6); Semaphore s; int p=0; for(int i=0;i<n;i++) switch(sym_choice(3,"op")){ case 0: s.post(); p=1; break; case 1: SYM_ASSERT(s.semtry()==(p==1),"a non-blocking attempt succeeds exactly when a permit is available"); p=0; break; default: if(p){ s.get(); p=0; } } SYM_ASSERT(s.semtry()==(p==1),"a permit is held exactly when one was posted"); sym_reach("done"); }
static void*getter(void*a){ gS->get(); gGot[(long)a]=1; return 0; } static void*poster(void*){ gS->post(); return 0; }
static void spur(){ env_spurious=sym_param("spur",0); }
static void handoff(){ spur(); Semaphore s; gS=&s; Thread g,p; g.start(getter,0); p.start(poster,0); g.join(); p.join(); SYM_ASSERT(gGot[0]==1,"a posted permit is granted"); SYM_ASSERT(!s.semtry(),"one permit grants one acquisition"); sym_reach("done"); }
// two waiters; the second permit is posted once the first has been taken
static Semaphore*gAck; static void*getterAck(void*a){ gS->get(); gGot[(long)a]=1; gAck->post(); return 0; }
static void two(){ spur(); Semaphore s,k; gS=&s; gAck=&k; Thread a,b; a.start(getterAck,0); b.start(getterAck,(void*)1); s.post(); k.get(); s.post(); k.get(); a.join(); b.join(); SYM_ASSERT(gGot[0]&&gGot[1],"every permit is granted"); SYM_ASSERT(!s.semtry(),"no permit is invented"); SYM_ASSERT(!k.semtry(),"no permit is invented"); sym_reach("done"); }
static void*ping(void*){ for(int i=0;i<2;i++){ gS->get(); gAck->post(); } return 0; }
static void pingpong(){ Semaphore s,k; gS=&s; gAck=&k; Thread t; t.start(ping,0); for(int i=0;i<2;i++){ s.post(); k.get(); SYM_ASSERT(!s.semtry(),"a permit is granted once"); } t.join(); sym_reach("done"); }
static int gTry[4]; static void*tryer(void*a){ gTry[(long)a]=gS->semtry(); return 0; }
static void trying(){ Semaphore s; gS=&s; Thread p,t,u; p.start(poster,0); t.start(tryer,0); u.start(tryer,(void*)1); p.join(); t.join(); u.join(); int left=s.semtry(); SYM_ASSERT(gTry[0]+gTry[1]+left==1,"a permit is granted exactly once"); sym_reach(left?"none":"got"); }
static void trytwo(){ Semaphore s; gS=&s; s.post(); Thread t,u; t.start(tryer,0); u.start(tryer,(void*)1); t.join(); u.join(); SYM_ASSERT(gTry[0]+gTry[1]==1,"a permit is granted exactly once and never missed"); SYM_ASSERT(!s.semtry(),"no permit is invented"); sym_reach("done"); }
struct E { int id; E(int i):id(i){} }; typedef InterthreadQueueWithWait<E> Q; static Q*gQ; static int gSeen[4]; static size_t gLvl[4];
static int gMax; // the smallest size the queue has had so far and still has until a write: only reads happen
static int gDone; struct Probe : public Q { size_t raw() const { return mQ.size(); } }; static Probe*gP; static unsigned long gReads;
// each completed read is marked before it starts (so that "started reads" bounds the size from below)
static void*waiter(void*a){ long k=(long)a; gQ->wait(gLvl[k]); gSeen[k]=__builtin_popcountl(env_marks()); return 0; }
static void*rdr(void*a){ long n=(long)a; for(long i=0;i<(n&7);i++){ env_mark((n>>3)+i); E*e=gQ->readNoBlock(); SYM_ASSERT(e!=0,"the element is there"); delete e; } return 0; }
static void low(){ spur(); int n=sym_param("n",2),two=sym_param("two",0); Q q; gQ=&q; for(int i=0;i<n;i++) q.write(new E(i)); for(int k=0;k<=two;k++){ gLvl[k]=(size_t)sym_range(0,n,"level"); gSeen[k]=-1; }
  Thread w[2],r[2]; for(long k=0;k<=two;k++) w[k].start(waiter,(void*)k); int n1=two?n/2:n,n2=n-n1; r[0].start(rdr,(void*)(long)n1); if(n2) r[1].start(rdr,(void*)(long)(n2|n1<<3)); for(int k=0;k<=two;k++) w[k].join(); r[0].join(); if(n2) r[1].join();
  for(int k=0;k<=two;k++) SYM_ASSERT(gSeen[k]>=0&&n-gSeen[k]<=(int)gLvl[k],"a waiter is released only once the queue is at or below its level"); SYM_ASSERT(q.size()==0,"everything was read"); sym_reach("done"); }
static void*clr(void*){ gQ->clear(); return 0; }
static void lowclear(){ int n=3; Q q; gQ=&q; for(int i=0;i<n;i++) q.write(new E(i)); gLvl[0]=(size_t)sym_range(0,2,"level"); gLvl[1]=(size_t)sym_range(0,2,"level"); Thread a,b,c; a.start(waiter,0); b.start(waiter,(void*)1); c.start(clr,0); a.join(); b.join(); c.join(); SYM_ASSERT(q.size()==0,"cleared"); sym_reach("done"); }
// a producer limiting itself by the level: never more than level+1 held
static int gOver; static void*prod(void*){ for(int i=0;i<3;i++){ gQ->wait(gLvl[0]); gQ->write(new E(i)); if(gQ->size()>gLvl[0]+1) gOver=1; } return 0; } static void*cons(void*){ for(int i=0;i<3;i++){ E*e=gQ->read(); SYM_ASSERT(e&&e->id==i,"elements arrive in order"); delete e; } return 0; }
static void lowwrite(){ Q q; gQ=&q; gLvl[0]=(size_t)sym_range(0,2,"level"); Thread p,c; p.start(prod,0); c.start(cons,0); p.join(); c.join(); SYM_ASSERT(!gOver,"waiting for the level bounds the queue"); SYM_ASSERT(q.size()==0,"everything was read"); sym_reach("done"); }
extern "C" void harness_main(void){ H(seq) H(handoff) H(two) H(pingpong) H(trying) H(trytwo) H(low) H(lowclear) H(lowwrite) sym_fail("unknown case"); }
