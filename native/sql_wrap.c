// Native replays use the real libsqlite3; these wrappers count and inject the result codes the harness chooses.
#include <sqlite3.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
int env_sql_live,env_sql_prepared,env_sql_finalized,env_sql_opened,env_sql_closed,env_sql_steps,env_sql_fail_open; int (*env_sql_hook)(int op,const char*sql);
int __real_sqlite3_open(const char*,sqlite3**); int __real_sqlite3_close(sqlite3*); int __real_sqlite3_prepare_v2(sqlite3*,const char*,int,sqlite3_stmt**,const char**); int __real_sqlite3_step(sqlite3_stmt*); int __real_sqlite3_finalize(sqlite3_stmt*);
int __wrap_sqlite3_open(const char*f,sqlite3**h){ env_sql_opened++; if(env_sql_fail_open) return __real_sqlite3_open("/nonexistent/dir/x.db",h); int r=__real_sqlite3_open(f,h); return r; }
int __wrap_sqlite3_close(sqlite3*h){ env_sql_closed++; return __real_sqlite3_close(h); }
int __wrap_sqlite3_prepare_v2(sqlite3*h,const char*q,int n,sqlite3_stmt**s,const char**t){ *s=0; if(env_sql_hook){ int rc=env_sql_hook(0,q); if(rc) return rc; } int r=__real_sqlite3_prepare_v2(h,q,n,s,t); if(!r&&*s) env_sql_prepared++; return r; }
int __wrap_sqlite3_step(sqlite3_stmt*s){ if(!s) return 21; env_sql_steps++; if(env_sql_hook){ int rc=env_sql_hook(1,sqlite3_sql(s)); if(rc) return rc; } return __real_sqlite3_step(s); }
int __wrap_sqlite3_finalize(sqlite3_stmt*s){ if(s) env_sql_finalized++; return __real_sqlite3_finalize(s); }
int env_sql_exec(const char*file,const char*sql){ sqlite3*h; int rc=__real_sqlite3_open(file,&h); if(!rc){ sqlite3_stmt*s; rc=__real_sqlite3_prepare_v2(h,sql,-1,&s,0); if(!rc){ rc=__real_sqlite3_step(s); __real_sqlite3_finalize(s); } } __real_sqlite3_close(h); return rc; }
int env_sql_get(const char*file,const char*sql,char*b,int cap,int*len){ sqlite3*h; int r=0; if(len) *len=0; if(!__real_sqlite3_open(file,&h)){ sqlite3_stmt*s; if(!__real_sqlite3_prepare_v2(h,sql,-1,&s,0)){ if(__real_sqlite3_step(s)==100){ const char*t=(const char*)sqlite3_column_text(s,0); if(!t) r=-1; else { int m=sqlite3_column_bytes(s,0); r=1; if(len) *len=m; if(m>=cap) m=cap-1; memcpy(b,t,m); b[m]=0; } } __real_sqlite3_finalize(s); } } __real_sqlite3_close(h); return r; }
void env_sql_reset(void){}
