/*SPEC
BOUNDS='one mutex; any sequence of 6 lock, reporting lock, try-lock, timed-lock (every timeout of 0 to 2047 ms) and unlock calls, nested up to 8 deep; up to 3 threads contending, each using any of the four ways to acquire, with one nested level; up to 2 waiters on a signal using it; a scope left at any of 4 places by return or exception; every interleaving of the synchronisation operations and every moment of expiry'
OUTSIDE='more threads or deeper nesting; the content of the debugging texts; unlocking a mutex the thread does not hold'
ASSUMES=['the mutex log level is LOG_INFO (its default), except in the blocked case, where it is any level']
case('seq',n=6,conc=True,reach=['held','free'],time=500)
case('deep',n=8,conc=True,reach=['done'],time=300)
WAY=['lock','rlock','try','timed']
for a in range(4):
  for b in range(a,4): case('excl.%s.%s'%(WAY[a],WAY[b]),a=a,b=b,conc=True,reach=['done'],time=300)
case('excl3',a=0,b=2,c=3,conc=True,reach=['done'],time=600,f='excl')
case('timed',conc=True,reach=['got','timeout'],time=300)
case('held',conc=True,reach=['got','not'],time=300)
case('blocked',conc=True,reach=['done'],time=300)
case('scope',conc=True,reach=['return','throw'],time=300)
case('waitcnt',conc=True,reach=['done'],time=300)
case('waitcnt2',two=1,conc=True,reach=['done'],time=500,f='waitcnt')
case('waittimed',conc=True,reach=['done'],time=300)
case('waitmulti',conc=True,reach=['done'],time=300)
case('rw',conc=True,reach=['done'],time=300)
case('rwtry',conc=True,reach=['got','not'],time=300)
*/
#include "symx.h"
#include "env.h"
#include "Threads.h"
#include "Timeval.h"
#include "Utils.h"
#include <syslog.h>
#include <string.h>
#include <stdexcept>
#include "Configuration.h"
ConfigurationTable gConfig;
static Mutex*gM; static int gIn; static uint32_t gSum,gAdd[4]; static bool gOk[4];
static const char*F="here";
static bool acquire(Mutex&m,int way,int ms){ switch(way){ case 0: m.lock(); return true; case 1: m.lock(F,7); return true; case 2: return m.trylock(); default: return m.timedlock(ms,F,9); } }
static void*probe(void*a){ gOk[(long)a]=gM->trylock(); if(gOk[(long)a]){ SYM_ASSERT(gM->lockcnt()==1,"the new holder holds it once"); gM->unlock(); } return 0; }
static bool freeToOthers(Mutex&m){ gM=&m; Thread t; t.start(probe,(void*)3); t.join(); return gOk[3]; }
static void seq(){ int n=sym_param("n",6); Mutex m; int d=0; for(int i=0;i<n;i++){ int op=sym_choice(5,"op"); if(op<4){ bool r=acquire(m,op,op==3?(int)sym_bits(11,"ms"):0); SYM_ASSERT(r,"the holder, or anybody when it is free, acquires it at once"); d++; } else if(d){ m.unlock(); d--; } SYM_ASSERT(m.lockcnt()==d,"the lock count is the number of times it is held"); }
  SYM_ASSERT(freeToOthers(m)==(d==0),"it is free to others exactly when unlocked as often as locked"); sym_reach(d?"held":"free"); while(d--) m.unlock(); SYM_ASSERT(m.lockcnt()==0&&freeToOthers(m),"released by the last unlock"); }
static void deep(){ int n=sym_param("n",8); Mutex m; int way=sym_choice(4,"way"),way2=sym_choice(4,"way2"); for(int i=0;i<n;i++){ SYM_ASSERT(acquire(m,i&1?way:way2,5),"the holder acquires it again"); SYM_ASSERT(m.lockcnt()==i+1,"the lock count"); SYM_ASSERT(m.mutext().size()>0,"the report is readable"); } for(int i=n;i>0;i--){ if(i<3) SYM_ASSERT(!freeToOthers(m),"still held"); m.unlock(); SYM_ASSERT(m.lockcnt()==i-1,"the lock count"); } SYM_ASSERT(freeToOthers(m),"released"); sym_reach("done"); }
static int gWay[4]; static void*contender(void*a){ long k=(long)a; gOk[k]=acquire(*gM,gWay[k],50); if(!gOk[k]) return 0; SYM_ASSERT(gIn==0,"nobody else is inside"); gIn=1; SYM_ASSERT(gM->lockcnt()==1,"held once"); uint32_t s=gSum; bool again=acquire(*gM,gWay[k],50); SYM_ASSERT(again&&gM->lockcnt()==2,"the holder nests"); env_yield(); SYM_ASSERT(gM->lockcnt()==2,"only the holder changes the count"); gM->unlock(); env_yield(); SYM_ASSERT(gM->lockcnt()==1,"one level released"); gSum=s+gAdd[k]; SYM_ASSERT(gIn==1,"still the only one inside"); gIn=0; gM->unlock(); return 0; }
static void excl(){ Mutex m; gM=&m; int n=0; Thread t[3]; const char*nm[]={"a","b","c"}; for(int i=0;i<3;i++){ int w=sym_param(nm[i],-1); if(w>=0){ gWay[n]=w; gAdd[n]=sym<uint32_t>("add"); n++; } } for(long i=0;i<n;i++) t[i].start(contender,(void*)i); for(int i=0;i<n;i++) t[i].join(); uint32_t want=0; for(int i=0;i<n;i++){ if(gOk[i]) want+=gAdd[i]; if(gWay[i]<2) SYM_ASSERT(gOk[i],"a waiting lock is granted in the end"); } SYM_ASSERT(gSum==want,"no update made while holding the mutex is lost"); SYM_ASSERT(m.lockcnt()==0,"released"); if(gWay[0]>=2&&gWay[1]>=2) SYM_ASSERT(gOk[0]||gOk[1],"somebody acquired a free mutex"); sym_reach("done"); }
// a timed lock against a holder that gives up at some time
static int gMs; static int64_t gT0,gT1; static void*timedThread(void*){ gT0=env_now_us; gOk[0]=gM->timedlock(gMs); gT1=env_now_us; if(gOk[0]){ SYM_ASSERT(gIn==0&&gM->lockcnt()==1,"acquired exclusively"); gM->unlock(); } return 0; }
static void timed(){ env_now_us=1000000000000ll+(int64_t)sym_range(0,999999,"us"); Mutex m; gM=&m; gMs=(int)sym_bits(11,"ms"); m.lock(); gIn=1; Thread t; t.start(timedThread,0); env_yield(); SYM_ASSERT(m.lockcnt()==1,"an attempt does not count"); gIn=0; m.unlock(); t.join(); SYM_ASSERT(m.lockcnt()==0,"released, whether acquired or not"); if(!gOk[0]) SYM_ASSERT(gT1-gT0>=1000ll*gMs,"no earlier than the time given"); SYM_ASSERT(freeToOthers(m),"free"); sym_reach(gOk[0]?"got":"timeout"); }
// while it is held throughout, attempts by others always fail and leave no trace
static void*tryBoth(void*){ gOk[0]=gM->trylock(); gOk[1]=gM->timedlock(gMs); if(gOk[0]) gM->unlock(); if(gOk[1]) gM->unlock(); return 0; }
static void held(){ int hold=sym_choice(2,"hold"); Mutex m; gM=&m; gMs=(int)sym_range(0,100,"ms"); if(hold) m.lock(); Thread t; t.start(tryBoth,0); t.join(); SYM_ASSERT(gOk[0]==!hold&&gOk[1]==!hold,"an attempt succeeds exactly when nobody else holds it"); SYM_ASSERT(m.lockcnt()==hold,"the lock count is unchanged"); sym_reach(hold?"not":"got"); if(hold) m.unlock(); }
// blocked for long: it is reported, and the lock still granted and counted once
extern int gMutexLogLevel; static void*blockedThread(void*){ gM->lock(F,3); SYM_ASSERT(gIn==0,"nobody else is inside"); SYM_ASSERT(gM->lockcnt()==1,"held once"); gOk[0]=true; gM->unlock(); return 0; }
static void blocked(){ gMutexLogLevel=sym_choice(2,"loglevel")?LOG_DEBUG:LOG_INFO; Mutex m; gM=&m; m.lock(F,1); gIn=1; Thread t; t.start(blockedThread,0); env_yield(); SYM_ASSERT(!gOk[0],"not granted while held"); gIn=0; m.unlock(); t.join(); SYM_ASSERT(gOk[0]&&m.lockcnt()==0,"granted, then released"); SYM_ASSERT(freeToOthers(m),"free"); sym_reach("done"); }
static void inner(Mutex&m,int where,int how){ ScopedLock a(m); if(where==0){ if(how) throw std::runtime_error("x"); return; } { ScopedLock b(m,F,5); SYM_ASSERT(m.lockcnt()==2,"nested"); if(where==1){ if(how) throw 5; return; } } SYM_ASSERT(m.lockcnt()==1,"inner scope left"); if(where==2){ if(how) throw "x"; return; } for(int i=0;i<2;i++){ ScopedLock c(m); if(i==1&&where==3){ if(how) throw std::string("s").at(9); break; } } SYM_ASSERT(m.lockcnt()==1,"the loop's scope left"); }
static void scope(){ Mutex m; int where=sym_choice(4,"where"),how=sym_choice(2,"how"); bool thrown=false; try{ inner(m,where,how); }catch(...){ thrown=true; } SYM_ASSERT(thrown==(how==1),"the exception arrives"); SYM_ASSERT(m.lockcnt()==0,"released on leaving the scope"); SYM_ASSERT(freeToOthers(m),"free"); sym_reach(how?"throw":"return"); }
// a thread waiting for a signal does not hold the mutex
static Signal*gSig; static int gFlag,gWaiting; static void*waiter(void*a){ ScopedLock l(*gM); gWaiting++; while(!gFlag){ gSig->wait(*gM); SYM_ASSERT(gM->lockcnt()==1,"held once again after waiting"); } return 0; }
static void waitcnt(){ Mutex m; Signal s; gM=&m; gSig=&s; int n=1+sym_param("two",0); Thread t[2]; for(int i=0;i<n;i++) t[i].start(waiter,0); m.lock(); SYM_ASSERT(m.lockcnt()==1,"a thread waiting for a signal is not counted"); gFlag=1; m.lock(F,2); SYM_ASSERT(m.lockcnt()==2,"nested"); m.unlock(); s.broadcast(); m.unlock(); for(int i=0;i<n;i++) t[i].join(); SYM_ASSERT(m.lockcnt()==0,"released"); sym_reach("done"); }
static void*waiterT(void*a){ ScopedLock l(*gM,F,11); for(int i=0;i<2&&!gFlag;i++){ gSig->wait(*gM,gMs); SYM_ASSERT(gM->lockcnt()==1,"held once again after waiting"); } return 0; }
static void waittimed(){ Mutex m; Signal s; gM=&m; gSig=&s; gMs=(int)sym_range(-5,500,"ms"); Thread t; t.start(waiterT,0); if(m.trylock()){ SYM_ASSERT(m.lockcnt()==1,"a thread waiting for a signal is not counted"); gFlag=1; s.signal(); m.unlock(); } t.join(); SYM_ASSERT(m.lockcnt()==0,"released"); SYM_ASSERT(freeToOthers(m),"free"); sym_reach("done"); }
static void waitmulti(){ Mutex m,o; Signal s; gM=&m; gSig=&s; Thread t; t.start(waiter,0); { ScopedLock l(m); { ScopedLockMultiple both(1,m,o); SYM_ASSERT(m.lockcnt()==1&&o.lockcnt()==1,"both held"); gFlag=1; } s.signal(); } t.join(); SYM_ASSERT(m.lockcnt()==0&&o.lockcnt()==0,"released"); sym_reach("done"); }
static RWLock*gRW; static int gRd,gWr; static uint32_t gVal; static void*wr(void*a){ gRW->wlock(); SYM_ASSERT(gRd==0&&gWr==0,"a writer is alone"); gWr=1; gVal=gVal+gAdd[0]; env_yield(); SYM_ASSERT(gRd==0,"a writer is alone"); gVal=gVal+gAdd[0]; gWr=0; gRW->unlock(); return 0; }
static void*rdr(void*a){ gRW->rlock(); SYM_ASSERT(gWr==0,"no writer while reading"); uint32_t v=gVal; env_yield(); SYM_ASSERT(gVal==v&&gWr==0,"nothing changes while reading"); SYM_ASSERT((gVal==0)|(gVal==2*gAdd[0]),"no half-done write is seen"); gRW->unlock(); return 0; }
static void rw(){ RWLock l; gRW=&l; gAdd[0]=sym<uint32_t>("add"); Thread a,b,c; a.start(wr,0); b.start(rdr,0); c.start(rdr,0); a.join(); b.join(); c.join(); SYM_ASSERT(l.trywlock(),"free at the end"); l.unlock(); SYM_ASSERT(gVal==2*gAdd[0],"written"); sym_reach("done"); }
static int gHow; static void*rwprobe(void*){ gOk[0]=gHow?gRW->trywlock():gRW->tryrlock(); if(gOk[0]) gRW->unlock(); return 0; }
static void rwtry(){ RWLock l; gRW=&l; int st=sym_choice(4,"state"); gHow=sym_choice(2,"write"); if(st==1) l.rlock(); if(st==2) SYM_ASSERT(l.tryrlock(),"free"); if(st==3) l.wlock(); Thread t; t.start(rwprobe,0); t.join(); bool want=st==0||(st<3&&!gHow); SYM_ASSERT(gOk[0]==want,"readers share, writers exclude"); if(st) l.unlock(); SYM_ASSERT(l.trywlock(),"free at the end"); l.unlock(); sym_reach(want?"got":"not"); }
extern "C" void harness_main(void){ H(seq) H(deep) H(excl) H(timed) H(held) H(blocked) H(scope) H(waitcnt) H(waittimed) H(waitmulti) H(rw) H(rwtry) sym_fail("unknown case"); }
