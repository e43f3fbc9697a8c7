// Log daemon and console model: records every message.
#include "env.h"
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
int env_nlog,env_loglev[ENV_LOGMAX]; char env_logtxt[ENV_LOGMAX][256]; unsigned long env_loglen[ENV_LOGMAX]; char env_out[4096]; int env_nout; int env_logopen,env_logmask=0xff; 
void vsyslog(int pri,const char*f,va_list ap){ static char b[8192]; int n=vsnprintf(b,sizeof b,f,ap); if(env_nlog<ENV_LOGMAX){ env_loglev[env_nlog]=pri; env_loglen[env_nlog]=n; int k=n<255?n:255; memcpy(env_logtxt[env_nlog],b,k); env_logtxt[env_nlog][k]=0; } env_nlog++; }
void syslog(int pri,const char*f,...){ va_list ap; va_start(ap,f); vsyslog(pri,f,ap); va_end(ap); } void __syslog_chk(int pri,int fl,const char*f,...){ va_list ap; va_start(ap,f); vsyslog(pri,f,ap); va_end(ap); } void openlog(const char*id,int o,int fac){ env_logopen++; } void closelog(void){} int setlogmask(int m){ int o=env_logmask; if(m) env_logmask=m; return o; }
