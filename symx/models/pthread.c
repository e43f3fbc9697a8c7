// POSIX threads model.  One thread runs at a time; every synchronisation operation is a scheduling point at which any thread that can run may be
// chosen ("sched:" choices).  Timed waits may expire at any scheduling point, which advances the clock to their deadline.
#include "env.h"
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <time.h>
extern int __sx_thread_create(void(*)(long),long); extern int __sx_self(void); extern void __sx_switch(int); extern void __sx_lock(void*); extern void __sx_unlock(void*); extern void __sx_acq(void*); extern void __sx_rel(void*); extern void __sx_dedup(long); extern void __sx_cycle(void); extern int sym_choice(int,const char*); extern void sym_fail(const char*); extern void __sx_note(const char*); extern long __sx_nswitch(void);
typedef struct { int lock; unsigned count; int owner; unsigned nusers; int kind; } Mx; // glibc layout
typedef struct { unsigned magic; } Cv; typedef struct { int r; int w; int nr; } Rw;
enum { RUN=0,ON_MUTEX,ON_COND,ON_JOIN,ON_RW,DONE };
#define NT 12
static struct { int st; void*obj; int timed; int64_t dl; int wake; /*0 none 1 signalled 2 timeout*/ void*(*fn)(void*); void*arg; void*ret; int detached,joined; } T[NT]; static int nT=1; int env_spurious=0,env_spurious_later=0; extern unsigned long sym_uint_(int,const char*); extern void sym_assume_(int);
int env_threads_alive(void){ int c=0; for(int i=1;i<nT;i++) c+=T[i].st!=DONE; return c; } int env_switches(void){ return (int)__sx_nswitch(); }
int env_coarse=0; int env_fixed=0; // no choice of schedule: a thread runs until it blocks, then the first that can run, or else the earliest deadline
 int env_nopreempt=0; int env_preempt=-1; // remaining preemptions of a thread that could go on (-1: any number)
static int canRun(int i){ return T[i].st==RUN; }
static int timedOk(int i){ return (T[i].st==ON_COND||T[i].st==ON_MUTEX||T[i].st==ON_RW)&&T[i].timed; }
static int spurOk(int i){ return T[i].st==ON_COND&&env_spurious>0; }
// pick the next thread to run; `must`: current thread cannot continue
static int pick(int must,int me,int k){ // the k-th choice, or -1-(number of choices)
  int n=0; if(!must){ if(n==k) return me; n++; } for(int i=0;i<nT;i++) if(i!=me&&canRun(i)){ if(n==k) return i; n++; } for(int i=0;i<nT;i++) if(timedOk(i)){ if(n==k) return 100+i; n++; } for(int i=0;i<nT;i++) if(spurOk(i)){ if(n==k) return 200+i; n++; } return -1-n; }
static void schedule(int must){ int me=__sx_self(); if(!must&&(env_preempt==0||env_fixed)) return; if(env_fixed){ int b=-1; for(int i=0;i<nT;i++) if(canRun(i)){ b=i; break; } if(b<0){ for(int i=0;i<nT;i++) if(timedOk(i)&&(b<0||T[i].dl<T[b].dl)) b=i; if(b<0) sym_fail("deadlock: no thread can run"); T[b].st=RUN; T[b].wake=2; if(env_now_us<T[b].dl) env_now_us=T[b].dl; } if(b!=me) __sx_switch(b); return; } int n=-1-pick(must,me,-1);
  if(n==0){ sym_fail("deadlock: no thread can run"); }
  int k=0; if(n>1){ __sx_dedup(must); k=sym_choice(n,"sched:next"); } else __sx_cycle();
  int t=pick(must,me,k); if(!must&&t!=me&&env_preempt>0) env_preempt--; if(t>=200){ t-=200; env_spurious--; T[t].st=RUN; T[t].wake=1; if(env_spurious_later&&T[t].timed&&env_now_us<T[t].dl){ int64_t d=(int64_t)sym_uint_(21,"later"); sym_assume_(d<=T[t].dl-env_now_us); env_now_us+=d; } } else if(t>=100){ t-=100; T[t].st=RUN; T[t].wake=2; if(env_now_us<T[t].dl) env_now_us=T[t].dl; }
  if(t!=me)__sx_switch(t); }
static void point(void){ if(nT>1&&!env_nopreempt) schedule(0); }
__attribute__((noinline,used)) void __pm_preempt(void){ point(); }
void env_yield(void){ point(); }
static unsigned long gMarks=0; void env_mark(int i){ gMarks|=1ul<<i; } unsigned long env_marks(void){ return gMarks; } // which operations have completed; not a scheduling point
static void block(int st,void*o){ int me=__sx_self(); T[me].st=st; T[me].obj=o; schedule(1); }
static void wakeAll(int st,void*o){ for(int i=0;i<nT;i++) if(T[i].st==st&&T[i].obj==o){ T[i].st=RUN; T[i].wake=1; } }
// ---- threads
static void start(long id){ void*r=T[id].fn(T[id].arg); T[id].ret=r; T[id].st=DONE; __sx_rel(&T[id]); wakeAll(ON_JOIN,&T[id]); schedule(1); sym_fail("finished thread ran again"); }
int pthread_create(unsigned long*tp,const void*attr,void*(*fn)(void*),void*arg){ if(nT>=NT){ sym_fail("model: too many threads"); } int id=nT; memset(&T[id],0,sizeof T[id]); T[id].fn=fn; T[id].arg=arg; if(attr&&((const int*)attr)[0]==1) T[id].detached=1; nT++; int k=__sx_thread_create(start,id); if(k!=id) sym_fail("model: thread numbering"); *tp=id+1; __pm_preempt(); return 0; }
void pthread_exit(void*r){ int me=__sx_self(); T[me].ret=r; T[me].st=DONE; __sx_rel(&T[me]); wakeAll(ON_JOIN,&T[me]); schedule(1); for(;;); }
int pthread_join(unsigned long t,void**r){ int id=(int)t-1; if(id<0||id>=nT) return ESRCH; if(T[id].joined||T[id].detached) return EINVAL; if(id==__sx_self()) return EDEADLK; point(); while(T[id].st!=DONE) block(ON_JOIN,&T[id]); T[id].joined=1; __sx_acq(&T[id]); if(r) *r=T[id].ret; return 0; }
int pthread_detach(unsigned long t){ int id=(int)t-1; if(id<0||id>=nT) return ESRCH; T[id].detached=1; return 0; } unsigned long pthread_self(void){ return __sx_self()+1; } int pthread_equal(unsigned long a,unsigned long b){ return a==b; } int sched_yield(void){ point(); return 0; } int pthread_yield(void){ point(); return 0; } int pthread_cancel(unsigned long t){ return 0; } int pthread_setname_np(unsigned long t,const char*n){ return 0; } int pthread_kill(unsigned long t,int s){ return 0; } int pthread_setcancelstate(int a,int*b){ return 0; } int pthread_setcanceltype(int a,int*b){ return 0; } int pthread_sigmask(int h,const void*a,void*b){ return 0; }
int pthread_attr_init(void*a){ memset(a,0,56); return 0; } int pthread_attr_destroy(void*a){ return 0; } int pthread_attr_setstacksize(void*a,unsigned long n){ return n<16384?EINVAL:0; } int pthread_attr_getstacksize(void*a,unsigned long*n){ *n=8<<20; return 0; } int pthread_attr_setdetachstate(void*a,int d){ *(int*)a=d; return 0; } int pthread_attr_setschedpolicy(void*a,int d){ return 0; } int pthread_attr_setschedparam(void*a,const void*d){ return 0; } int pthread_attr_setinheritsched(void*a,int d){ return 0; }
int pthread_once(int*o,void(*f)(void)){ point(); while(*o==1) block(ON_JOIN,o); if(!*o){ *o=1; f(); *o=2; __sx_rel(o); wakeAll(ON_JOIN,o); } else __sx_acq(o); return 0; }
// initialisation of local statics: one thread at a time, the others wait
int __cxa_guard_acquire(unsigned char*g){ while(!g[0]&&g[1]) block(ON_JOIN,g); if(g[0]){ __sx_acq(g); return 0; } g[1]=1; return 1; } void __cxa_guard_release(unsigned char*g){ g[0]=1; g[1]=0; __sx_rel(g); wakeAll(ON_JOIN,g); } void __cxa_guard_abort(unsigned char*g){ g[1]=0; wakeAll(ON_JOIN,g); }
static void*keys[16][NT]; static int nkeys; int pthread_key_create(unsigned*k,void(*d)(void*)){ *k=nkeys++; return 0; } int pthread_key_delete(unsigned k){ return 0; } void*pthread_getspecific(unsigned k){ return keys[k][__sx_self()]; } int pthread_setspecific(unsigned k,const void*v){ keys[k][__sx_self()]=(void*)v; return 0; }
// ---- mutexes
int pthread_mutexattr_init(int*a){ *a=0; return 0; } int pthread_mutexattr_destroy(int*a){ return 0; } int pthread_mutexattr_settype(int*a,int k){ if(k<0||k>3) return EINVAL; *a=k; return 0; } int pthread_mutexattr_gettype(const int*a,int*k){ *k=*a; return 0; } int pthread_mutexattr_setprotocol(int*a,int p){ return 0; } int pthread_mutexattr_setpshared(int*a,int p){ return 0; } int pthread_mutexattr_setrobust(int*a,int p){ return 0; }
int pthread_mutex_init(Mx*m,const int*a){ memset(m,0,40); if(a) m->kind=*a&3; return 0; } int pthread_mutex_destroy(Mx*m){ if(m->lock) return EBUSY; return 0; }
static int take(Mx*m){ int me=__sx_self()+1; if(!m->lock){ m->lock=1; m->owner=me; m->count=1; __sx_lock(m); return 1; } if(m->owner==me&&m->kind==1){ m->count++; return 1; } return 0; }
int pthread_mutex_lock(Mx*m){ if(m->lock&&m->owner==__sx_self()+1){ if(m->kind==1){ m->count++; return 0; } if(m->kind==2) return EDEADLK; } point(); while(!take(m)) block(ON_MUTEX,m); return 0; }
int pthread_mutex_trylock(Mx*m){ point(); return take(m)?0:EBUSY; }
static int64_t dlOf(const struct timespec*ts){ return (int64_t)ts->tv_sec*1000000+(ts->tv_nsec+999)/1000; }
int pthread_mutex_timedlock(Mx*m,const struct timespec*ts){ int me=__sx_self(); if(m->lock&&m->owner==me+1){ if(m->kind==1){ m->count++; return 0; } if(m->kind==2) return EDEADLK; } point(); if(take(m)) return 0; if(ts->tv_nsec<0||ts->tv_nsec>=1000000000) return EINVAL; T[me].dl=dlOf(ts); do{ if(env_now_us>=T[me].dl) return ETIMEDOUT; T[me].timed=1; T[me].wake=0; block(ON_MUTEX,m); T[me].timed=0; if(T[me].wake==2) return take(m)?0:ETIMEDOUT; }while(!take(m)); return 0; }
int pthread_mutex_unlock(Mx*m){ int me=__sx_self()+1; if(!m->lock) return m->kind?EPERM:0; if(m->owner!=me){ if(m->kind) return EPERM; } if(m->kind==1&&--m->count>0) return 0; m->lock=0; m->owner=0; m->count=0; __sx_unlock(m); wakeAll(ON_MUTEX,m); return 0; }
static int holds(Mx*m){ return m->lock&&m->owner==__sx_self()+1; }
// ---- condition variables
int pthread_cond_init(void*c,const void*a){ memset(c,0,48); return 0; } int pthread_cond_destroy(void*c){ return 0; } int pthread_condattr_init(void*a){ return 0; } int pthread_condattr_destroy(void*a){ return 0; } int pthread_condattr_setclock(void*a,int c){ return 0; }
static int cwait(void*c,Mx*m,int timed,int64_t dl){ int me=__sx_self(); if(!holds(m)) return EPERM; unsigned cnt=m->count; 
  if(timed) point(); // the deadline may already have passed
  // release the mutex completely only for its last level (as pthread_cond_wait does: one level)
  if(m->kind==1&&m->count>1){ m->count--; } else { m->lock=0; m->owner=0; m->count=0; __sx_unlock(m); wakeAll(ON_MUTEX,m); }
  T[me].wake=0; T[me].timed=timed; T[me].dl=dl; int r=0; if(timed&&env_now_us>=dl){ T[me].wake=2; T[me].timed=0; } else block(ON_COND,c); T[me].timed=0; r=T[me].wake==2?ETIMEDOUT:0;
  if(holds(m)){ m->count++; } else { int f=1; while(!take(m)) { block(ON_MUTEX,m); f=0; } (void)f; (void)cnt; } return r; }
int pthread_cond_wait(void*c,Mx*m){ return cwait(c,m,0,0); } int pthread_cond_timedwait(void*c,Mx*m,const struct timespec*ts){ if(ts->tv_nsec<0||ts->tv_nsec>=1000000000) return EINVAL; return cwait(c,m,1,dlOf(ts)); }
int pthread_cond_clockwait(void*c,Mx*m,int clk,const struct timespec*ts){ return pthread_cond_timedwait(c,m,ts); }
int pthread_cond_signal(void*c){ point(); int w[NT],n=0; for(int i=0;i<nT;i++) if(T[i].st==ON_COND&&T[i].obj==c) w[n++]=i; if(!n) return 0; int k=n>1?sym_choice(n,"sched:wake"):0; T[w[k]].st=RUN; T[w[k]].wake=1; return 0; }
int pthread_cond_broadcast(void*c){ point(); wakeAll(ON_COND,c); return 0; }
// ---- semaphores (value at offset 0)
typedef struct { int v; } Sem; int sem_init(Sem*s,int p,unsigned v){ s->v=v; return 0; } int sem_destroy(Sem*s){ return 0; } int sem_post(Sem*s){ point(); s->v++; __sx_rel(s); wakeAll(ON_RW,s); return 0; } int sem_wait(Sem*s){ point(); while(s->v<=0) block(ON_RW,s); s->v--; __sx_acq(s); return 0; } int sem_trywait(Sem*s){ point(); if(s->v<=0){ errno=EAGAIN; return -1; } s->v--; return 0; } int sem_getvalue(Sem*s,int*v){ *v=s->v; return 0; } int sem_timedwait(Sem*s,const struct timespec*ts){ int me=__sx_self(); point(); int64_t dl=dlOf(ts); while(s->v<=0){ if(env_now_us>=dl){ errno=ETIMEDOUT; return -1; } T[me].timed=1; T[me].dl=dl; block(ON_RW,s); T[me].timed=0; if(T[me].wake==2&&s->v<=0){ errno=ETIMEDOUT; return -1; } } s->v--; return 0; }
// ---- reader/writer locks
int pthread_rwlockattr_init(void*a){ return 0; } int pthread_rwlockattr_destroy(void*a){ return 0; } int pthread_rwlockattr_setkind_np(void*a,int k){ return 0; } int pthread_rwlock_init(Rw*r,const void*a){ memset(r,0,56); return 0; } int pthread_rwlock_destroy(Rw*r){ return 0; }
int pthread_rwlock_rdlock(Rw*r){ point(); if(r->w&&r->w==__sx_self()+1) return EDEADLK; while(r->w) block(ON_RW,r); r->nr++; __sx_lock(r); return 0; } int pthread_rwlock_tryrdlock(Rw*r){ point(); if(r->w) return EBUSY; r->nr++; __sx_lock(r); return 0; } int pthread_rwlock_wrlock(Rw*r){ point(); if(r->w&&r->w==__sx_self()+1) return EDEADLK; while(r->w||r->nr) block(ON_RW,r); r->w=__sx_self()+1; __sx_lock(r); return 0; } int pthread_rwlock_trywrlock(Rw*r){ point(); if(r->w||r->nr) return EBUSY; r->w=__sx_self()+1; __sx_lock(r); return 0; } int pthread_rwlock_unlock(Rw*r){ if(r->w) r->w=0; else if(r->nr) r->nr--; __sx_unlock(r); wakeAll(ON_RW,r); return 0; }
// sleeping lets others run and the clock advance
static void nap(int64_t us){ int me=__sx_self(); env_slept++; int64_t dl=env_now_us+us; if(nT==1){ env_now_us=dl; return; } T[me].timed=1; T[me].dl=dl; T[me].wake=0; static int never; block(ON_COND,&never); T[me].timed=0; if(env_now_us<dl) env_now_us=dl; }
int usleep(unsigned n){ nap(n); return 0; } unsigned sleep(unsigned n){ nap((int64_t)n*1000000); return 0; } int nanosleep(const struct timespec*a,struct timespec*b){ nap((int64_t)a->tv_sec*1000000+a->tv_nsec/1000); return 0; }
// raw mutual exclusion used by std::mutex etc. maps onto the above
