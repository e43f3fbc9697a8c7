// Signals, processes, files by name: dispositions and requests are recorded, nothing is delivered or run.
#include "env.h"
#include <string.h>
#include <errno.h>
#include <signal.h>
#include <sys/stat.h>
#include <stdlib.h>
typedef void (*SH)(int); static SH cur[65]; struct env_ev env_evs[ENV_EVMAX]; int env_nev; static void ev(int k,int a,void*p,const char*s){ if(env_nev<ENV_EVMAX){ struct env_ev*e=&env_evs[env_nev]; e->kind=k; e->a=a; e->p=p; unsigned long n=s?strlen(s):0; e->len=n; if(n>255) n=255; if(s) memcpy(e->s,s,n); e->s[n]=0; } env_nev++; }
void*env_sig_now(int s){ return (void*)cur[s]; }
SH signal(int s,SH h){ ev(1,s,(void*)h,0); if(s<1||s>64||s==SIGKILL||s==SIGSTOP){ errno=EINVAL; return SIG_ERR; } SH o=cur[s]; cur[s]=h; return o; }
int sigaction(int s,const struct sigaction*n,struct sigaction*o){ if(s<1||s>64||((s==SIGKILL||s==SIGSTOP)&&n)){ errno=EINVAL; return -1; } if(o){ memset(o,0,sizeof *o); o->sa_handler=cur[s]; } if(n){ ev(1,s,(void*)n->sa_handler,0); cur[s]=n->sa_handler; } return 0; }
int kill(int pid,int s){ ev(2,s,s>0&&s<=64?(void*)cur[s]:0,0); if(env_nev<=ENV_EVMAX) env_evs[env_nev-1].b=pid; return 0; } int raise(int s){ return kill(4242,s); }
int sigemptyset(sigset_t*s){ memset(s,0,sizeof *s); return 0; } int sigfillset(sigset_t*s){ memset(s,255,sizeof *s); return 0; } int sigaddset(sigset_t*s,int n){ ((unsigned long*)s)[0]|=1ul<<(n-1); return 0; } int sigdelset(sigset_t*s,int n){ ((unsigned long*)s)[0]&=~(1ul<<(n-1)); return 0; } int sigprocmask(int h,const sigset_t*a,sigset_t*o){ if(o) sigemptyset(o); return 0; } 
// the kernel delivers a signal: 1 if a handler ran
int env_sig_deliver(int s){ SH h=cur[s]; if(h==SIG_DFL||h==SIG_IGN) return 0; h(s); return 1; }
int env_sys_ret; int system(const char*c){ ev(3,0,0,c); return env_sys_ret; } int env_dump_ret; int WriteCoreDump(const char*f){ ev(4,0,0,f); return env_dump_ret; }
int remove(const char*f){ ev(5,0,0,f); extern int env_file_exists(const char*); extern void env_file_del(const char*); if(!env_file_exists(f)){ errno=ENOENT; return -1; } env_file_del(f); return 0; } int unlink(const char*f){ return remove(f); }
void (*env_atexit[8])(void); int env_natexit; int atexit(void(*f)(void)){ if(env_natexit<8) env_atexit[env_natexit++]=f; return 0; }
int stat(const char*f,struct stat*b){ extern int env_file_exists(const char*); memset(b,0,sizeof *b); if(env_file_exists(f)){ b->st_mode=0100644; return 0; } errno=ENOENT; return -1; } int lstat(const char*f,struct stat*b){ return stat(f,b); } int access(const char*f,int m){ struct stat b; return stat(f,&b); }
