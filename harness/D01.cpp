/*SPEC
BOUNDS='every sequence of result codes: each prepare and each step either proceeds or returns busy, locked or any other code (symbolic, 1 to 99 and the extended codes up to 65535), retry limits of 0 to 5; one call of each of the functions of sqlite3util, two calls in a row, and a query stepped over 3 rows'
OUTSIDE='SQLite itself; retries above 5; a caller passing a NULL statement text'
STUBS='the database is the model env_sqlite with injected result codes; the native replays inject the same codes in front of the real library'
case('prepare',reach=['ok','failed'],time=400)
case('run',reach=['ok','failed'],time=400)
case('command',reach=['ok','failed'],time=600)
case('lookup0',k=0,reach=['ok','failed'],time=400,f='lookup')
case('lookup1',k=1,reach=['ok','failed'],time=400,f='lookup')
case('lookup2',k=2,reach=['ok','failed'],time=400,f='lookup')
case('exists',reach=['ok','failed'],time=400)
case('query',reach=['ok','failed'],time=400)
case('text0',k=0,reach=['ok','failed'],time=400,f='text')
case('text1',k=1,reach=['ok','failed'],time=400,f='text')
case('textlookup',reach=['ok','failed'],time=400)
case('step',reach=['done'],time=600)
case('attrset',reach=['ok','failed'],time=700)
case('twice',reach=['done'],time=500)
case('nodb',reach=['done'],time=300)
*/
#include "symx.h"
#include "env.h"
#include "sqlite3util.h"
#include "Configuration.h"
#include <string.h>
#include <stdlib.h>
ConfigurationTable gConfig;
static sqlite3*db; static void ex(const char*q){ sqlite3_stmt*s=0; int rc=sqlite3_prepare_v2(db,q,-1,&s,0); SYM_ASSERT(rc==0,"harness: prepare"); rc=sqlite3_step(s); SYM_ASSERT(rc==101||rc==100,"harness: step"); sqlite3_finalize(s); }
// the injected codes: what happened to each kind of call
static int gTries[2],gLast[2],gProceeded[2],gGaveUp[2],gBudget; static bool busy(int rc){ return rc==5||rc==6; }
static int hook(int op,const char*){ SYM_ASSERT(gTries[op]==0||busy(gLast[op])||gTries[op]>=1000,"a call is repeated only after a busy result"); gTries[op]++; int rc=0; if(gBudget>0) switch(sym_choice(3,"rc")){ case 0: break; case 1: gBudget--; rc=5+sym_choice(2,"locked"); break; default: gBudget--; rc=(int)sym_range(1,65535,"code"); SYM_ASSUME(!((rc==5)|(rc==6)|(rc==100)|(rc==101))); } gLast[op]=rc; if(!rc) gProceeded[op]++; return rc; }
static void inject(int n){ gBudget=n; for(int i=0;i<2;i++) gTries[i]=gLast[i]=gProceeded[i]=gGaveUp[i]=0; env_sql_hook=hook; env_slept=0; } static void again(int op){ gTries[op]=0; }
static int gLive0; static void begin(){ int rc=sqlite3_open(":memory:",&db); SYM_ASSERT(rc==0,"open"); ex("CREATE TABLE t (k TEXT UNIQUE, v TEXT, n INTEGER)"); ex("INSERT INTO t VALUES ('a','x',1)"); ex("INSERT INTO t VALUES ('b','y',2)"); gLive0=env_sql_prepared-env_sql_finalized; }
static void checkTries(int op,int retries){ SYM_ASSERT(gTries[op]<=retries,"no more attempts than the limit"); if(gTries[op]&&busy(gLast[op])) SYM_ASSERT(gTries[op]==retries,"busy is retried up to the limit"); }
static void clean(){ SYM_ASSERT(env_sql_prepared-env_sql_finalized==gLive0,"each statement prepared is finalised exactly once"); }
static void closeDb(){ env_sql_hook=0; SYM_ASSERT(sqlite3_close(db)==0,"nothing is left open"); }
static bool okPrep(int retries){ return retries>0&&gTries[0]>0&&!gLast[0]; } static bool okStep(){ return gTries[1]>0&&!gLast[1]; }
static void prepare(){ begin(); int retries=sym_choice(6,"retries"); inject(5); sqlite3_stmt*s=(sqlite3_stmt*)1; int rc=sqlite3_prepare_statement(db,&s,"SELECT v FROM t",retries); checkTries(0,retries); SYM_ASSERT((rc==0)==okPrep(retries),"success exactly when the statement was prepared"); if(!rc){ SYM_ASSERT(s!=0,"a statement"); sqlite3_finalize(s); } else { SYM_ASSERT(rc==(retries?gLast[0]:5),"the code reported is the last one"); SYM_ASSERT(gProceeded[0]==0,"nothing prepared is abandoned"); } clean(); sym_reach(rc?"failed":"ok"); closeDb(); }
static void run(){ begin(); int retries=sym_choice(6,"retries"); sqlite3_stmt*s=0; sqlite3_prepare_v2(db,"SELECT v FROM t WHERE k == 'b'",-1,&s,0); inject(5); int rc=sqlite3_run_query(db,s,retries); checkTries(1,retries); SYM_ASSERT(rc==(retries==0?5:gLast[1]?gLast[1]:100),"the code reported is that of the last attempt"); SYM_ASSERT(gProceeded[1]<=1,"a statement runs once"); sym_reach(rc==100?"ok":"failed"); env_sql_hook=0; sqlite3_finalize(s); clean(); closeDb(); }
static void command(){ begin(); int retries=sym_choice(6,"retries"); int code=12345; inject(4); bool wantCode=sym_choice(2,"code?"); static const char*Q[]={"UPDATE t SET n=7 WHERE k=='b'","SELECT v FROM t"}; int w=sym_choice(2,"stmt"); bool r=sqlite_command(db,Q[w],wantCode?&code:0,retries); checkTries(0,retries); checkTries(1,retries); bool ok=okPrep(retries)&&okStep(); SYM_ASSERT(r==ok,"success exactly when the statement completed"); if(wantCode) SYM_ASSERT(okPrep(retries)?code==(gLast[1]?gLast[1]:w?100:101):(code<0||code==gLast[0]),"the result code is that of the statement"); clean(); env_sql_hook=0; sqlQuery Q2(db,"t","n","k","b"); SYM_ASSERT(Q2.getResultInt()==(ok&&w==0?7:2),"changed exactly when reported so"); SYM_ASSERT(gProceeded[1]<=1,"a statement runs once"); sym_reach(ok?"ok":"failed"); }
static void lookup(){ begin(); int k=sym_param("k",0); int retries=sym_choice(6,"retries"); bool present=sym_choice(2,"present"); const char*key=present?"b":"c"; inject(4); bool r; char*p=(char*)1; unsigned u=77; if(k==0) r=sqlite3_single_lookup(db,"t","k",key,"v",p,retries); else if(k==1) r=sqlite3_single_lookup(db,"t","k",key,"n",u,retries); else r=sqlite3_single_lookup(db,"t","n",(unsigned)(present?2:9),"v",p,retries); checkTries(0,retries); checkTries(1,retries); bool ok=okPrep(retries)&&okStep()&&present; SYM_ASSERT(r==ok,"found exactly when the lookup completed and there is such a row"); if(k==1) SYM_ASSERT(u==(ok?2u:77u),"no stale or uninitialised value"); else { SYM_ASSERT(ok?p&&!strcmp(p,"y"):p==0,"no stale or uninitialised value"); free(p); } clean(); sym_reach(ok?"ok":"failed"); closeDb(); }
static void exists(){ begin(); int retries=sym_choice(6,"retries"); bool present=sym_choice(2,"present"); inject(4); bool r=sqlite3_exists(db,"t","k",present?"b":"c",retries); checkTries(0,retries); checkTries(1,retries); bool ok=okPrep(retries)&&okStep()&&present; SYM_ASSERT(r==ok,"exists exactly when the lookup completed and there is such a row"); clean(); sym_reach(ok?"ok":"failed"); closeDb(); }
static void text(){ begin(); int k=sym_param("k",0); bool present=sym_choice(2,"present"); inject(5); std::string s="old"; bool r=k?sqlite_single_lookup(db,"t","n",(unsigned)(present?2:9),"v",s):sqlite_single_lookup(db,"t","k",present?"b":"c","v",s); checkTries(0,5); checkTries(1,5); bool ok=okPrep(5)&&okStep()&&present; SYM_ASSERT(r==ok&&s==(ok?"y":"old"),"found exactly when the lookup completed and there is such a row"); clean(); sym_reach(ok?"ok":"failed"); closeDb(); }
static void textlookup(){ begin(); env_sql_hook=0; ex("CREATE TABLE ATTR_TABLE (ATTR_NAME TEXT PRIMARY KEY, ATTR_VALUE TEXT)"); ex("INSERT INTO ATTR_TABLE VALUES ('N','val')"); gLive0=env_sql_prepared-env_sql_finalized; inject(5); std::string s=sqlite_get_attr(db,"N"); bool ok=okPrep(5)&&okStep(); SYM_ASSERT(s==(ok?"val":""),"the value, or nothing"); clean(); sym_reach(ok?"ok":"failed"); closeDb(); }
static void query(){ begin(); inject(5); { sqlQuery Q(db,"t","v,n","k","b"); checkTries(0,5); checkTries(1,5); bool ok=okPrep(5)&&okStep(); SYM_ASSERT(Q.sqlSuccess()==ok&&Q.sqlResultSize()==(ok?2u:0u),"success exactly when it completed"); SYM_ASSERT(Q.getResultText(0)==(ok?"y":"")&&Q.getResultInt(1)==(ok?2:0),"no stale or uninitialised value"); if(!ok) SYM_ASSERT(!Q.sqlStep()&&!Q.sqlSuccess(),"a failed query stays failed"); sym_reach(ok?"ok":"failed"); } clean(); closeDb(); }
static void step(){ begin(); ex("INSERT INTO t VALUES ('c','z',3)"); inject(3); { sqlQuery Q(db,"t","n",""); bool ok=Q.sqlSuccess(); SYM_ASSERT(ok==(okPrep(5)&&okStep()),"success exactly when it completed"); for(int row=1;row<=4;row++){ SYM_ASSERT(Q.getResultInt()==(ok?row:0),"the rows in order"); bool was=ok; again(1); bool more=Q.sqlStep(); if(was){ checkTries(1,5); ok=!gLast[1]&&row<3; } else SYM_ASSERT(gTries[1]==0,"nothing is run after the end"); SYM_ASSERT(more==ok&&Q.sqlSuccess()==ok,"another row exactly when the step completed with one"); } } clean(); sym_reach("done"); closeDb(); }
static void attrset(){ begin(); gBudget=0; env_sql_hook=0; ex("CREATE TABLE ATTR_TABLE (ATTR_NAME TEXT PRIMARY KEY, ATTR_VALUE TEXT)"); ex("INSERT INTO ATTR_TABLE VALUES ('N','old')"); gLive0=env_sql_prepared-env_sql_finalized; struct L{ static int h(int op,const char*q){ int rc=0; if(gBudget>0&&sym_choice(2,"fail")){ gBudget--; rc=(int)sym_range(1,99,"code"); } gTries[op]++; gLast[op]=rc; return rc; } }; gBudget=3; env_sql_hook=L::h; bool r=sqlite_set_attr(db,"N","new"); env_sql_hook=0; SYM_ASSERT(gTries[0]<=10&&gTries[1]<=10,"bounded attempts"); clean(); std::string s=sqlite_get_attr(db,"N"); SYM_ASSERT(s==(r?"new":"old"),"written exactly when reported so"); sym_reach(r?"ok":"failed"); closeDb(); }
static void twice(){ begin(); char*p=0; inject(2); bool r1=sqlite3_single_lookup(db,"t","k","a","v",p); SYM_ASSERT(r1?p&&!strcmp(p,"x"):!p,"the value or nothing"); free(p); again(0); again(1); bool r2=sqlite3_single_lookup(db,"t","k","zz","v",p); SYM_ASSERT(!r2&&!p,"nothing left from the call before"); again(0); again(1); unsigned u=9; bool r3=sqlite3_single_lookup(db,"t","k","b","n",u); SYM_ASSERT(r3?u==2:u==9,"the value or nothing"); if(gBudget==2) SYM_ASSERT(r1&&r3,"without failures everything is found"); clean(); sym_reach("done"); closeDb(); }
static void nodb(){ db=0; char*p=(char*)1; unsigned u=3; std::string s="old"; int code=1; SYM_ASSERT(!sqlite3_single_lookup(db,"t","k","a","v",p)&&!p&&!sqlite3_single_lookup(db,"t","k","a","n",u)&&u==3&&!sqlite_single_lookup(db,"t","k","a","v",s)&&s=="old"&&!sqlite3_exists(db,"t","k","a")&&!sqlite_command(db,"SELECT",&code)&&code!=1&&!sqlite_set_attr(db,"a","b")&&sqlite_get_attr(db,"a").empty(),"without a database nothing is found or claimed"); sym_reach("done"); }
extern "C" void harness_main(void){ H(prepare) H(run) H(command) H(lookup) H(exists) H(text) H(textlookup) H(query) H(step) H(attrset) H(twice) H(nodb) sym_fail("unknown case"); }
