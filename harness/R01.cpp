/*SPEC
BOUNDS='histories of up to 5 operations (increment, indexed increment, maximum, clear one, clear all, commit) over a named and two indexed counters, with maxima of any value up to 99999 or at the limits of unsigned, closed by a commit; up to 2 database writes failing at any point; names of up to 3 arbitrary bytes and of 180 to 300 characters; indices 0 to 999, around powers of ten and up to the largest unsigned; index ranges of up to 4; an incrementing thread against the committing one and a clearing one, every interleaving (scheduling points at mutex and database operations)'
OUTSIDE='counters that wrap; NUL bytes; counters never created (the database ignores them); a mixture of increments and maxima on one counter not separated by commits'
ASSUMES=['SQLite behaves as the model symx/models/env_sqlite.c (compared with the real library on natively replayed paths)']
for n in range(1,4): case('hist.%d'%n,n=n,reach=['done'],time=700,f='hist',conc=True)
case('hist.4',n=4,ops=4,reach=['done'],time=700,f='hist',conc=True)
case('hist.5',n=5,ops=4,reach=['done'],time=900,f='hist',conc=True,tier='thorough')
for n in (1,2,3): case('fail.%d'%n,n=n,reach=['lost','done'] if n>1 else ['done'],time=700,f='fail',conc=True)
for l in range(1,4): case('name.%d'%l,len=l,reach=['done'],time=500,f='name',conc=True)
case('longer',reach=['done'],time=300,conc=True)
case('index',reach=['done'],time=500,conc=True)
case('limits',reach=['done'],time=300,conc=True)
case('range',reach=['done'],time=300,conc=True)
case('times',reach=['done'],time=300,conc=True)
case('conc',reach=['done'],time=800,conc=True)
case('clearing',reach=['done'],time=800,conc=True)
case('committer',reach=['done'],time=500,conc=True)
case('stop',reach=['done'],time=500,conc=True)
case('nodb',reach=['done'],time=300,conc=True)
*/
#include "symx.h"
#include "env.h"
#include "sqlite3util.h"
#include "Configuration.h"
#include "Reporting.h"
#include "Logger.h"
#include "Threads.h"
#include <string.h>
#include <stdlib.h>
#include <string>
ConfigurationTable gConfig;
struct NoDb{ NoDb(){ env_sql_fail_open=1; } }; static NoDb gNo; ReportingTable gReports("none.db"); struct Db{ Db(){ env_sql_fail_open=0; } }; static Db gYes;
static ReportingTable*R;
static void openR(bool stop=true){ env_fixed=1; R=new ReportingTable("r.db"); if(stop){ R->reportShutdown(); sleep(11); SYM_ASSERT(env_threads_alive()==0,"a shut down committer ends"); } }
static bool get(const char*col,const std::string&name,uint64_t&v){ std::string q="SELECT "; q+=col; q+=" FROM REPORTING WHERE NAME='"; for(char c:name){ if(c=='\'') q+='\''; q+=c; } q+="'"; char b[64]; int len=0; if(!env_sql_get("r.db",q.c_str(),b,64,&len)) return false; b[len]=0; v=strtoull(b,0,10); return true; }
static void is(const std::string&name,uint64_t want,const char*what){ uint64_t v=0; SYM_ASSERT(get("VALUE",name,v),"the counter exists"); SYM_ASSERT(v==want,what); }
static const char*K[3]={"a","b.0","b.1"}; static uint64_t S[3],P[3]; static void mk(){ SYM_ASSERT(R->create("a"),"create"); SYM_ASSERT(R->create("b",0,1),"create indexed"); }
static void checkAll(){ for(int i=0;i<3;i++) is(K[i],S[i],"the stored value is what happened since the last clear"); }
static int gFail,gStep; static int hook(int op,const char*sql){ if(op!=1||strncmp(sql,"UPDATE",6)) return 0; if(gFail>0&&sym_choice(2,"fails")){ gFail--; gStep++; return 1+sym_choice(2,"code")*9; } return 0; }
// one operation; the reference follows what the call reported
static void op(int nops){ int c=sym_choice(3,"counter"); switch(sym_choice(nops,"op")){
	case 0: SYM_ASSERT(c?R->incr("b",c-1):R->incr("a"),"incr"); P[c]++; break;
	case 1:{ gStep=0; bool r=R->commit(); SYM_ASSERT(r==(gStep==0),"commit tells whether all was written"); if(!gStep) for(int i=0;i<3;i++){ S[i]+=P[i]; P[i]=0; } else { // what could not be written stays pending: learn which
			for(int i=0;i<3;i++){ uint64_t v; SYM_ASSERT(get("VALUE",K[i],v),"exists"); SYM_ASSERT(v==S[i]||v==S[i]+P[i],"all or none of the increments are written"); if(v!=S[i]){ S[i]=v; P[i]=0; } else if(P[i]) sym_reach("lost"); } } break; }
	case 2:{ gStep=0; bool r=c?R->clear("b",c-1):R->clear("a"); SYM_ASSERT(r==(gStep==0),"clear tells whether it happened"); if(r) S[c]=P[c]=0; break; }
	case 3:{ gStep=0; bool r=R->clear(); SYM_ASSERT(r==(gStep==0),"clear tells whether it happened"); if(r) for(int i=0;i<3;i++) S[i]=P[i]=0; break; }
	case 4: SYM_ASSERT(c?R->create("b",c-1,c-1):R->create("a"),"creating again changes nothing"); break;
	default:{ if(P[c]) sym_end(); unsigned m=sym_choice(3,"max")*2; gStep=0; bool r=c?R->max("b",c-1,m):R->max("a",m); SYM_ASSERT(r==(gStep==0),"max tells whether it happened"); if(r&&m>S[c]) S[c]=m; } } }
static void fin(){ gFail=0; SYM_ASSERT(R->commit(),"commit"); for(int i=0;i<3;i++){ S[i]+=P[i]; P[i]=0; } checkAll(); SYM_ASSERT(R->commit(),"commit"); checkAll(); sym_reach("done"); }
static void hist(){ openR(); mk(); int n=sym_param("n",2); for(int i=0;i<n;i++) op(sym_param("ops",6)); fin(); }
static void fail(){ openR(); mk(); env_sql_hook=hook; int n=sym_param("n",2); R->incr("a"); P[0]++; R->incr("b",1); P[2]++; gFail=2; for(int i=0;i<n;i++) op(4); fin(); }
static void check1(const std::string&nm,uint64_t mx){ SYM_ASSERT(R->create(nm.c_str()),"create"); is(nm,0,"a new counter is zero"); R->incr(nm.c_str()); R->incr(nm.c_str()); SYM_ASSERT(R->commit(),"commit"); is(nm,2,"increments are counted"); SYM_ASSERT(R->max(nm.c_str(),(unsigned)mx),"max"); is(nm,mx>2?mx:2,"the maximum"); SYM_ASSERT(R->clear(nm.c_str()),"clear"); is(nm,0,"cleared"); is("other",7,"other counters are left alone"); is("",9,"other counters are left alone"); sym_reach("done"); }
static void others(){ SYM_ASSERT(R->create("other")&&R->create(""),"create"); SYM_ASSERT(R->max("other",7)&&R->max("",9),"max"); }
static void name(){ openR(); others(); int n=sym_param("len",1); char b[4]; sym_bytes(b,n,"name"); for(int i=0;i<n;i++) SYM_ASSUME(b[i]!=0); check1(std::string(b,n),5); }
static void longer(){ openR(); others(); std::string s(sym_choice(2,"len")?300:sym_choice(2,"len")?180:200,'n'); int w=sym_choice(2,"indexed"); if(!w) check1(s,100); else { SYM_ASSERT(R->create(s.c_str(),5,6),"create"); R->incr(s.c_str(),5); R->incr(s.c_str(),6); R->incr(s.c_str(),6); SYM_ASSERT(R->max(s.c_str(),5,4000000000u),"max"); SYM_ASSERT(R->clear(s.c_str(),5),"clear"); SYM_ASSERT(R->commit(),"commit"); is(s+".5",0,"cleared"); is(s+".6",2,"counted"); } sym_reach("done"); }
static void index(){ openR(); static const unsigned B[]={0,9,10,99,100,999,9999,99999,100000,999999999,1000000000,4294967294u,4294967295u}; int w=sym_choice(15,"which"); unsigned i=w<13?B[w]:w==13?(unsigned)sym_range(0,99,"index"):(unsigned)sym_range(100,999,"index"); char t[32]; sprintf(t,"x.%u",i); SYM_ASSERT(R->create("x",i,i),"create"); SYM_ASSERT(R->create("x"),"create"); is(t,0,"exists"); R->incr("x",i); R->incr("x",i); R->incr("x"); SYM_ASSERT(R->commit(),"commit"); is(t,2,"counted"); is("x",1,"the plain one is another counter"); SYM_ASSERT(R->max("x",i,7),"max"); is(t,7,"maximum"); SYM_ASSERT(R->clear("x",i),"clear"); is(t,0,"cleared"); is("x",1,"the plain one is another counter"); sym_reach("done"); }
static void limits(){ openR(); static const unsigned B[]={0,1,2147483647u,2147483648u,4294967294u,4294967295u}; unsigned a=sym_choice(2,"kind")?B[sym_choice(6,"a")]:(unsigned)sym_range(0,99999,"value"),b=B[sym_choice(6,"b")]; R->create("m"); SYM_ASSERT(R->max("m",a),"max"); is("m",a,"the first maximum"); SYM_ASSERT(R->max("m",b),"max"); is("m",a>b?a:b,"the largest"); sym_reach("done"); }
static void range(){ openR(); unsigned lo=sym_choice(2,"top")?4294967292u+sym_choice(4,"lo"):sym_choice(4,"lo"); unsigned n=sym_choice(4,"n"); if(lo>4294967295u-n) sym_end(); unsigned hi=lo+n; bool empty=sym_choice(2,"empty"); if(empty&&!lo) sym_end(); SYM_ASSERT(R->create("r",lo,empty?lo-1:hi),"create"); for(uint64_t i=(lo>1?lo-2:0);i<=(uint64_t)hi+1;i++){ char t[32]; sprintf(t,"r.%llu",(unsigned long long)i); uint64_t v; bool ex=get("VALUE",t,v); SYM_ASSERT(ex==(!empty&&i>=lo&&i<=hi),"exactly the indices of the range exist"); } sym_reach("done"); }
static void times(){ env_now_us=(sym_choice(2,"era")?5000000000000000ll:1500000000000000ll)+(int64_t)sym_choice(3,"ms")*499999; openR(); uint64_t v; auto now=[&]{ return (uint64_t)(env_now_us/1000000); }; R->create("t"); uint64_t c0=now(); SYM_ASSERT(get("CLEAREDTIME","t",v)&&v==c0,"cleared when created"); SYM_ASSERT(get("UPDATETIME","t",v)&&v==0,"never updated"); env_now_us+=(int64_t)sym_choice(3,"wait")*1234567; R->incr("t"); R->commit(); uint64_t u=now(); SYM_ASSERT(get("UPDATETIME","t",v)&&v==u,"time of update"); SYM_ASSERT(get("CLEAREDTIME","t",v)&&v==c0,"not cleared"); env_now_us+=5000000; int w=sym_choice(4,"then"); uint64_t n=now(); switch(w){ case 0: R->max("t",9); SYM_ASSERT(get("UPDATETIME","t",v)&&v==n,"time of update"); break; case 1: R->clear("t"); SYM_ASSERT(get("CLEAREDTIME","t",v)&&v==n,"time of clearing"); SYM_ASSERT(get("UPDATETIME","t",v)&&v==0,"not updated since"); break; case 2: R->clear(); SYM_ASSERT(get("CLEAREDTIME","t",v)&&v==n,"time of clearing"); break; default: R->commit(); SYM_ASSERT(get("UPDATETIME","t",v)&&v==u,"nothing to update"); } sym_reach("done"); }
static int gN; static void*adder(void*){ for(int i=0;i<gN;i++) R->incr("a"); R->incr("b",0); return 0; }
static void conc(){ openR(); mk(); env_fixed=0; env_preempt=2; gN=2; Thread t; R->incr("a"); t.start(adder,0); SYM_ASSERT(R->commit(),"commit"); uint64_t v; SYM_ASSERT(get("VALUE","a",v)&&v>=1&&v<=3,"what was counted before is stored"); R->incr("a"); t.join(); SYM_ASSERT(R->commit(),"commit"); is("a",4,"no increment is lost or doubled"); is("b.0",1,"no increment is lost or doubled"); sym_reach("done"); }
static void*clearer(void*){ SYM_ASSERT(R->clear("a"),"clear"); return 0; }
static void clearing(){ openR(); mk(); R->incr("a"); R->incr("a"); R->incr("b",0); env_fixed=0; env_preempt=2; bool all=sym_choice(2,"all"); Thread t,u; t.start(clearer,0); if(all){ gN=1; u.start(adder,0); } SYM_ASSERT(R->commit(),"commit"); t.join(); if(all) u.join(); SYM_ASSERT(R->commit(),"commit"); uint64_t v; SYM_ASSERT(get("VALUE","a",v),"exists"); SYM_ASSERT(v<=(all?1u:0u),"increments from before the clear are gone"); is("b.0",all?2:1,"the other counter is not cleared"); sym_reach("done"); }
static void committer(){ openR(false); mk(); R->incr("a"); R->incr("b",1); sleep(11); is("a",1,"committed within ten seconds"); is("b.1",1,"committed within ten seconds"); R->incr("a"); sleep(11); is("a",2,"and again"); R->incr("a"); R->reportShutdown(); sleep(11); SYM_ASSERT(env_threads_alive()==0,"a shut down committer ends"); is("a",3,"after committing what was left"); sym_reach("done"); }
static void stop(){ env_fixed=1; R=new ReportingTable("r.db"); static const int W[]={0,1,11}; int w=sym_choice(3,"wait"); if(w) sleep(W[w]); R->reportShutdown(); sleep(25); SYM_ASSERT(env_threads_alive()==0,"a shut down committer ends"); sym_reach("done"); }
static void nodb(){ env_sql_fail_open=1; ReportingTable r("x.db"); SYM_ASSERT(!r.create("a"),"creating fails without a database"); SYM_ASSERT(r.incr("a"),"counting works"); SYM_ASSERT(!r.max("a",1)&&!r.clear("a")&&!r.clear(),"the database is missed"); SYM_ASSERT(!r.commit(),"nothing is written"); sym_reach("done"); }
extern "C" void harness_main(void){ H(hist) H(fail) H(name) H(longer) H(index) H(limits) H(range) H(times) H(conc) H(clearing) H(committer) H(stop) H(nodb) sym_fail("unknown case"); }
