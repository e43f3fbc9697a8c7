/*SPEC
BOUNDS='two threads (three with two mutexes in common) each locking two or three mutexes together once, in every order of naming them, with every proper subset already held; with and without reporting; optionally another thread locking one of the mutexes alone; every interleaving of the synchronisation operations for two threads locking two mutexes, otherwise every interleaving with at most 3 (three mutexes: 5, a pair against three: 4) preemptions (of a thread that could go on); a fourth entry where the caller holds all of them'
OUTSIDE='more threads; claiming to hold a mutex that is not held exactly once (asserted by the code); a caller that itself waits for one mutex while holding another outside this class'
case('alone',conc=True,reach=['done'],time=300)
case('alone2',conc=True,reach=['done'],time=300)
for o in range(4): case('two.%d'%o,own=o,conc=True,reach=['done'],time=400,f='two')
for o in range(4): case('tworep.%d'%o,own=o,rep=1,pb=3,conc=True,reach=['done'],time=600,f='two')
for o in range(8): case('three.%d'%o,own=o,pb=5,conc=True,reach=['done'],time=600,f='three')
case('twothree',pb=4,conc=True,reach=['done'],time=600)
case('third',pb=3,conc=True,reach=['done'],time=600)
case('third4',pb=4,conc=True,reach=['done'],time=1500,tier='thorough',f='third')
for o in range(4): case('tworep4.%d'%o,own=o,rep=1,pb=5,conc=True,reach=['done'],time=1500,tier='thorough',f='two')
for o in range(8): case('three7.%d'%o,own=o,pb=7,conc=True,reach=['done'],time=1500,tier='thorough',f='three')
case('single',conc=True,reach=['done'],time=600)
*/
#include "symx.h"
#include "env.h"
#include "Threads.h"
#include "Configuration.h"
ConfigurationTable gConfig;
static Mutex*gM[3]; static int gHolder[3]; static uint32_t gSum[3],gAdd[4]; static int gOwn[4],gOrd[4],gN,gRep;
static const int ORD[6][3]={{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
static void hold(int i,int me){ SYM_ASSERT(gHolder[i]==0,"nobody else holds it"); gHolder[i]=me; } static void unhold(int i,int me){ SYM_ASSERT(gHolder[i]==me,"still held"); gHolder[i]=0; }
// lock gN mutexes together, in order `ord`, those of `own` (bits by position) being held already
static void work(int me,int n,int ord,int own){ const int*o=n==3?ORD[ord]:ORD[ord?2:0]; uint32_t add=gAdd[me];
  for(int i=0;i<3;i++) for(int p=0;p<n;p++) if(o[p]==i&&(own>>p&1)){ gM[i]->lock(); hold(i,me); } // in one global order, so that the callers do not deadlock
  for(int p=0;p<n;p++) if(own>>p&1) unhold(o[p],me); // they may be released meanwhile
  Mutex&a=*gM[o[0]],&b=*gM[o[1]],&c=*gM[n==3?o[2]:o[0]]; if(n==2&&gRep){ ScopedLockMultiple l(own,a,b,"file",3); for(int p=0;p<n;p++) hold(o[p],me); env_yield(); for(int p=0;p<n;p++){ SYM_ASSERT(gM[o[p]]->lockcnt()==1,"all are held, once each"); gSum[o[p]]+=add; } for(int p=0;p<n;p++) unhold(o[p],me); for(int p=0;p<n;p++) if(own>>p&1) hold(o[p],me); }
  else if(n==2){ ScopedLockMultiple l(own,a,b); for(int p=0;p<n;p++) hold(o[p],me); env_yield(); for(int p=0;p<n;p++){ SYM_ASSERT(gM[o[p]]->lockcnt()==1,"all are held, once each"); gSum[o[p]]+=add; } for(int p=0;p<n;p++) unhold(o[p],me); for(int p=0;p<n;p++) if(own>>p&1) hold(o[p],me); }
  else { ScopedLockMultiple l(own,a,b,c); for(int p=0;p<n;p++) hold(o[p],me); env_yield(); for(int p=0;p<n;p++){ SYM_ASSERT(gM[o[p]]->lockcnt()==1,"all are held, once each"); gSum[o[p]]+=add; } for(int p=0;p<n;p++) unhold(o[p],me); for(int p=0;p<n;p++) if(own>>p&1) hold(o[p],me); }
  for(int p=0;p<n;p++) if(own>>p&1){ SYM_ASSERT(gM[o[p]]->lockcnt()==1,"those held on entry are still held"); unhold(o[p],me); gM[o[p]]->unlock(); } }
static void*worker(void*a){ long k=(long)a; work((int)k,gN,gOrd[k],gOwn[k]); return 0; }
static void allFree(int n){ for(int i=0;i<n;i++){ SYM_ASSERT(gM[i]->lockcnt()==0,"everything is released"); SYM_ASSERT(gM[i]->trylock(),"everything is free"); gM[i]->unlock(); } }
static int own(int n){ return sym_choice(1<<n,"own"); }
static void alone(){ Mutex a,b,c; gM[0]=&a; gM[1]=&b; gM[2]=&c; gAdd[1]=sym<uint32_t>("add"); work(1,3,sym_choice(6,"order"),own(3)); allFree(3); for(int i=0;i<3;i++) SYM_ASSERT(gSum[i]==gAdd[1],"updated"); sym_reach("done"); }
// exactly those it acquired are released: seen by another thread after the scope
static int gFree[3]; static void*look(void*a){ for(int i=0;i<(long)a;i++){ gFree[i]=gM[i]->trylock(); if(gFree[i]) gM[i]->unlock(); } return 0; }
static void alone2(){ Mutex a,b,c; gM[0]=&a; gM[1]=&b; gM[2]=&c; int n=2+sym_choice(2,"n"),o=own(n); for(int i=0;i<n;i++) if(o>>i&1) gM[i]->lock(); { ScopedLockMultiple*l=n==2?new ScopedLockMultiple(o,a,b):new ScopedLockMultiple(o,a,b,c); Thread t; t.start(look,(void*)(long)n); t.join(); for(int i=0;i<n;i++) SYM_ASSERT(!gFree[i],"held against others"); delete l; } Thread t; t.start(look,(void*)(long)n); t.join(); for(int i=0;i<n;i++){ SYM_ASSERT(gFree[i]==!(o>>i&1),"exactly those it acquired are released"); if(o>>i&1) gM[i]->unlock(); } allFree(n); sym_reach("done"); }
static void run(int nt,int n){ for(int k=1;k<=nt;k++) gAdd[k]=sym<uint32_t>("add"); uint32_t want=0; for(int k=1;k<=nt;k++) want+=gAdd[k]; gN=n; Thread t[3]; for(long k=1;k<nt;k++) t[k].start(worker,(void*)k); worker((void*)(long)nt); for(int k=1;k<nt;k++) t[k].join(); allFree(n); for(int i=0;i<n;i++) SYM_ASSERT(gSum[i]==want,"no update made while holding them is lost"); sym_reach("done"); }
static void two(){ Mutex a,b,c; gM[0]=&a; gM[1]=&b; gM[2]=&c; gRep=sym_param("rep",0); gOwn[1]=sym_param("own",0); gOrd[1]=0; gOwn[2]=own(2); gOrd[2]=sym_choice(2,"order"); run(2,2); }
static void three(){ Mutex a,b,c; gM[0]=&a; gM[1]=&b; gM[2]=&c; gOwn[1]=sym_param("own",0); gOrd[1]=0; gOwn[2]=own(3); gOrd[2]=sym_choice(6,"order"); run(2,3); }
static void third(){ Mutex a,b,c; gM[0]=&a; gM[1]=&b; gM[2]=&c; for(int k=1;k<=3;k++){ gOwn[k]=k==1?0:own(2)%3; gOrd[k]=k==1?0:sym_choice(2,"order"); } run(3,2); }
static void*pair(void*a){ work(1,2,gOrd[1],gOwn[1]); return 0; }
static void twothree(){ Mutex a,b,c; gM[0]=&a; gM[1]=&b; gM[2]=&c; gAdd[1]=sym<uint32_t>("add"); gAdd[2]=sym<uint32_t>("add"); gOwn[1]=own(2)%3; gOrd[1]=sym_choice(2,"order"); gOwn[2]=own(3); gOrd[2]=sym_choice(6,"order"); Thread t; t.start(pair,0); work(2,3,gOrd[2],gOwn[2]); t.join(); allFree(3); for(int i=0;i<3;i++) SYM_ASSERT(gSum[i]==gAdd[2]+(i<2?gAdd[1]:0),"no update made while holding them is lost"); sym_reach("done"); }
// against a thread that locks one of them alone
static void*lone(void*a){ long i=(long)a; gM[i]->lock(); hold(i,9); gSum[i]+=gAdd[1]; env_yield(); unhold(i,9); gM[i]->unlock(); return 0; }
static void single(){ Mutex a,b,c; gM[0]=&a; gM[1]=&b; gM[2]=&c; gAdd[1]=sym<uint32_t>("add"); gAdd[2]=sym<uint32_t>("add"); int w=sym_choice(3,"which"); Thread t; t.start(lone,(void*)(long)w); work(2,3,sym_choice(2,"order")*5,own(3)); t.join(); allFree(3); for(int i=0;i<3;i++) SYM_ASSERT(gSum[i]==gAdd[2]+(i==w?gAdd[1]:0),"no update is lost"); sym_reach("done"); }
extern "C" void harness_main(void){ env_preempt=sym_param("pb",-1); H(alone) H(alone2) H(two) H(three) H(twothree) H(third) H(single) sym_fail("unknown case"); }
