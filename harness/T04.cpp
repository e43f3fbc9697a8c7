/*SPEC
BOUNDS='up to 3 threads started by one (each by either way of starting, with any argument), restarted up to twice; up to 3 threads waiting for one signal object with up to 2 wakers; one or two spurious wake-ups; timed waits of every length of 0 to 2047 ms; every interleaving of the synchronisation operations'
OUTSIDE='the system refusing to create a thread (the code asserts); threads never joined'
case('run',conc=True,reach=['done'],time=300)
case('restart',conc=True,reach=['done'],time=300)
case('nested',conc=True,reach=['done'],time=300)
case('many',conc=True,reach=['done'],time=300)
case('noleak',conc=True,reach=['done'],time=300)
case('broadcast',n=2,conc=True,reach=['done'],time=300)
case('broadcast3',n=3,conc=True,reach=['done'],time=600,f='broadcast')
case('broadcastspur',n=2,spur=2,conc=True,reach=['done'],time=300,f='broadcast')
case('signal1',n=1,conc=True,reach=['done'],time=300,f='sigone')
case('signal2',n=2,conc=True,reach=['done'],time=300,f='sigone')
case('signal3',n=3,conc=True,reach=['done'],time=400,f='sigone')
case('twosignals',conc=True,reach=['done'],time=400)
case('timed',conc=True,reach=['woken','timeout'],time=400)
case('negative',conc=True,reach=['done'],time=300)
case('objects',conc=True,reach=['done'],time=300)
*/
#include "symx.h"
#include "env.h"
#include "Threads.h"
#include "Timeval.h"
#include "Configuration.h"
ConfigurationTable gConfig;
static int gRan[8]; static uint64_t gArg[8]; static uint64_t gGot[8];
static void*task0(void*a){ gGot[0]=(uint64_t)a; gRan[0]++; return 0; } static void*task1(void*a){ gGot[1]=(uint64_t)a; gRan[1]++; env_yield(); return a; } static void*task2(void*a){ env_yield(); gGot[2]=(uint64_t)a; gRan[2]++; return 0; }
typedef void*(*Fn)(void*); static Fn FN[3]={task0,task1,task2};
static void begin(Thread&t,int how,Fn f,uint64_t a){ switch(how){ case 0: t.start(f,(void*)a); break; case 1: t.start2(f,(void*)a,65536); break; default: START_THREAD(t,f,a); } }
static void run(){ Thread a,b; gArg[0]=sym<uint64_t>("arg"); gArg[1]=sym<uint64_t>("arg"); begin(a,sym_choice(3,"how"),FN[1],gArg[0]); begin(b,sym_choice(3,"how"),FN[2],gArg[1]); a.join(); SYM_ASSERT(gRan[1]==1&&gGot[1]==gArg[0],"joining returns after the task ran once with its argument"); b.join(); SYM_ASSERT(gRan[2]==1&&gGot[2]==gArg[1],"joining returns after the task ran once with its argument"); SYM_ASSERT(gRan[0]==0,"no other task runs"); SYM_ASSERT(env_threads_alive()==0,"all have finished"); sym_reach("done"); }
static void restart(){ Thread t; for(int r=0;r<3;r++){ int f=sym_choice(3,"task"); int before=gRan[f]; uint64_t a=sym<uint64_t>("arg"); begin(t,sym_choice(3,"how"),FN[f],a); t.join(); SYM_ASSERT(gRan[f]==before+1&&gGot[f]==a,"a thread object runs another task after joining"); } SYM_ASSERT(gRan[0]+gRan[1]+gRan[2]==3,"each start runs one task once"); sym_reach("done"); }
static void*outer(void*a){ Thread t; uint64_t v=(uint64_t)a+1; t.start(task1,(void*)v); t.join(); gGot[3]=gGot[1]; gRan[3]++; return 0; }
static void nested(){ uint64_t a=sym<uint64_t>("arg"); Thread t,u; t.start(outer,(void*)a); u.start(task2,(void*)(a^5)); u.join(); t.join(); SYM_ASSERT(gRan[3]==1&&gGot[3]==a+1&&gGot[2]==(a^5),"each task has its own argument"); sym_reach("done"); }
static void*summer(void*a){ uint64_t*p=(uint64_t*)a; p[1]=p[0]*3; return 0; }
static void many(){ uint64_t v[3][2]; Thread t[3]; for(int i=0;i<3;i++){ v[i][0]=sym<uint64_t>("arg"); v[i][1]=0; begin(t[i],i,summer,(uint64_t)v[i]); } for(int i=2;i>=0;i--){ t[i].join(); SYM_ASSERT(v[i][1]==v[i][0]*3,"what the task wrote is seen after joining"); } sym_reach("done"); }
static void noleak(){ int64_t l0=sym_live_blocks(); { Thread t,never; begin(t,sym_choice(3,"how"),task0,7); t.join(); begin(t,0,task1,8); t.join(); } SYM_ASSERT(sym_live_blocks()==l0,"nothing leaks"); sym_reach("done"); }
static void objects(){ Thread*t=new Thread(sym_choice(2,"stack")?65536:131072); uint64_t a=sym<uint64_t>("arg"); t->start(task0,(void*)a); t->join(); delete t; SYM_ASSERT(gRan[0]==1&&gGot[0]==a,"ran"); sym_reach("done"); }
// signals: waiting begins (under the mutex) before signalling, by the waiter counting itself
static Mutex*gM; static Signal*gS; static int gWaiting,gAwake,gSpurious; static uint32_t gData,gSeen[4]; static Signal*gReady;
static void*waiter(void*a){ ScopedLock l(*gM); gWaiting++; gReady->signal(); gS->wait(*gM); gAwake++; gSeen[(long)a]=gData; gReady->signal(); return 0; }
static void ready(int n){ while(gWaiting<n) gReady->wait(*gM); }
static void broadcast(){ int n=sym_param("n",2); env_spurious=sym_param("spur",0); Mutex m; Signal s,r; gM=&m; gS=&s; gReady=&r; Thread t[3]; for(long i=0;i<n;i++) t[i].start(waiter,(void*)i); uint32_t d=sym<uint32_t>("data"); m.lock(); ready(n); gData=d; s.broadcast(); m.unlock(); for(int i=0;i<n;i++) t[i].join(); SYM_ASSERT(gAwake==n,"every waiter is woken"); if(!sym_param("spur",0)) for(int i=0;i<n;i++) SYM_ASSERT(gSeen[i]==d,"woken after the signal"); sym_reach("done"); }
static void sigone(){ int n=sym_param("n",2); Mutex m; Signal s,r; gM=&m; gS=&s; gReady=&r; Thread t[3]; for(long i=0;i<n;i++) t[i].start(waiter,(void*)i); m.lock(); ready(n); s.signal(); while(gAwake<1) r.wait(m); m.unlock(); m.lock(); SYM_ASSERT(gAwake>=1,"at least one waiter is woken"); s.broadcast(); m.unlock(); for(int i=0;i<n;i++) t[i].join(); SYM_ASSERT(gAwake==n,"and the others by the broadcast"); sym_reach("done"); }
static void*waker(void*){ gM->lock(); ready(2); gM->unlock(); gS->signal(); return 0; }
static void twosignals(){ Mutex m; Signal s,r; gM=&m; gS=&s; gReady=&r; Thread t[2],w; for(long i=0;i<2;i++) t[i].start(waiter,(void*)i); w.start(waker,0); m.lock(); ready(2); m.unlock(); s.signal(); for(int i=0;i<2;i++) t[i].join(); w.join(); SYM_ASSERT(gAwake==2,"two signals wake two waiters"); sym_reach("done"); }
static int gMs; static int64_t gT0,gT1; static int gFlag; static void*timedW(void*){ ScopedLock l(*gM); gT0=env_now_us; gWaiting++; gS->wait(*gM,gMs); gT1=env_now_us; gAwake=gFlag?2:1; return 0; }
static void timed(){ env_now_us=1000000000000ll+sym_range(0,999999,"us"); Mutex m; Signal s; gM=&m; gS=&s; gMs=(int)sym_bits(11,"ms"); Thread t; t.start(timedW,0); int first; { ScopedLock l(m); first=!gWaiting; gFlag=1; s.signal(); } t.join(); SYM_ASSERT(gAwake>0,"returns"); if(gAwake==1||first) SYM_ASSERT(gT1-gT0>=1000ll*gMs,"not before the time given without a signal"); SYM_ASSERT(m.trylock(),"released"); m.unlock(); sym_reach(gAwake==1||first?"timeout":"woken"); }
static void negative(){ Mutex m; Signal s; gM=&m; gS=&s; int64_t t=sym_range(-5000000000ll,0,"ms"); int64_t t0=env_now_us; m.lock(); s.wait(m,(long)t); SYM_ASSERT(m.lockcnt()==1,"still held"); SYM_ASSERT(env_now_us==t0,"a time not in the future does not wait"); m.unlock(); sym_reach("done"); }
extern "C" void harness_main(void){ H(run) H(restart) H(nested) H(many) H(noleak) H(broadcast) H(sigone) H(twosignals) H(timed) H(negative) H(objects) sym_fail("unknown case"); }
