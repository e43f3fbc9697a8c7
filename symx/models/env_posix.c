// Processes: identities.
#include "env.h"
#include <stdlib.h>
#include <string.h>
extern int __sx_self(void);
long syscall(long n,...){ return 4242+__sx_self(); } int getpid(void){ return 4242; } int getppid(void){ return 4241; } int gettid(void){ return 4242+__sx_self(); }
unsigned getuid(void){ return 1000; } unsigned geteuid(void){ return 1000; }
// stack traces: env_bt_frames frames, of any address
int env_bt_frames=2; int backtrace(void**b,int n){ int k=env_bt_frames<n?env_bt_frames:n; for(int i=0;i<k;i++) b[i]=(void*)(0x400000ul+16*i); return k; }
char**backtrace_symbols(void*const*b,int n){ char**r=malloc(n*8+n*8); if(!r) return 0; char*t=(char*)(r+n); for(int i=0;i<n;i++){ r[i]=t+8*i; memcpy(r[i],"f [0x1]",8); } return r; }
