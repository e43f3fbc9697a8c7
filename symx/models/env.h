// Environment models: interface between harnesses and the modelled surroundings (clock, scheduler, files, sockets, signals, log daemon).
#pragma once
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
extern int64_t env_now_us;        // the clock, microseconds since the epoch
extern int64_t env_wall_off;       // what the time of day differs from the steady clock by (a clock that was set)
extern int env_split; extern int64_t env_split_s,env_split_us; // if env_split, the clocks report these
extern int64_t env_tick_us;       // every reading of the clock advances it by this much
extern int (*env_clock_hook)(void); // called before each reading of the clock (may change env_now_us)
extern int env_spurious_later;    // ... and the moment of such a wake-up may be any up to the deadline of the waiter
extern int env_spurious;          // remaining spurious condition wake-ups the scheduler may inject
extern int env_slept;             // number of sleeps performed
// log daemon
#define ENV_LOGMAX 24
extern int env_nlog, env_loglev[ENV_LOGMAX]; extern char env_logtxt[ENV_LOGMAX][256]; extern unsigned long env_loglen[ENV_LOGMAX];
extern char env_out[4096]; extern int env_nout;  // what was printed to stdout/stderr
// the database: counters, injected result codes (op 0 prepare, 1 step; 0 = proceed), and access behind the code's back
extern int env_sql_live,env_sql_prepared,env_sql_finalized,env_sql_opened,env_sql_closed,env_sql_steps,env_sql_fail_open; extern int (*env_sql_hook)(int op,const char*sql);
int env_sql_exec(const char*file,const char*sql); int env_sql_get(const char*file,const char*sql,char*b,int cap,int*len);
int env_threads_alive(void);      // threads started and not finished
int env_switches(void); void env_yield(void); void env_mark(int i); unsigned long env_marks(void); extern int env_nopreempt,env_preempt,env_bt_frames,env_fixed;
// sockets (env_sock.c). hook ops: 0 socket 1 bind 2 sendto 3 recvfrom 4 poll/select 5 getsockname 6 setsockopt 7 fcntl; result 0 or an errno
struct env_sent { int fd; unsigned long n; char d[64]; unsigned char to[128]; int tolen; }; extern struct env_sent env_sk_sent[4]; extern int env_sk_nsent,env_sk_opened,env_sk_closed,env_sk_badclose,env_sk_base; extern unsigned short env_sk_port; extern int (*env_sk_hook)(int op);
int env_sk_live(void); int env_sk_bound(int fd,void*a,int cap); int env_sk_nb(int fd); void env_sk_push(const char*d,long n,const void*from,int flen,int64_t at);
extern char env_host_asked[64]; extern int env_host_n; extern int (*env_host_hook)(const char*name,unsigned char out[16]); void env_yield_out(const char*);
// signals and files (env_sig.c, env_out.c). events: 1 signal(a,p) 2 kill(b,a) with disposition p 3 system(s) 4 core dump s 5 unlink s 6 fopen s
#define ENV_EVMAX 160
struct env_ev { int kind,a,b; void*p; char s[256]; unsigned long len; }; extern struct env_ev env_evs[ENV_EVMAX]; extern int env_nev,env_sys_ret,env_dump_ret; void*env_sig_now(int s); int env_sig_deliver(int s); extern void (*env_atexit[8])(void); extern int env_natexit;
int env_file_exists(const char*n); int env_file_get(const char*n,char*b,int m); void env_file_put(const char*n,const char*d,int k); void env_file_del(const char*n); int env_file_open_count(void); extern int env_fopen_fail; extern void (*env_fopen_hook)(const char*);
#ifdef __cplusplus
}
#endif
