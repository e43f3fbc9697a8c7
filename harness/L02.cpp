/*SPEC
BOUNDS='all 8 global settings with their 5 synonyms, all 8 per-file settings or none or empty, all 8 message severities; level names: every text of up to 7 bytes and every known name with any one byte changed; file names of up to 3 arbitrary bytes, two of them in turn; texts of up to 2 arbitrary bytes; a change of setting followed by up to 1002 lookups; invalid settings of up to 2 arbitrary bytes; two threads asking while a third setting changes'
OUTSIDE='texts containing a NUL byte; the console copy of a record'
ASSUMES=['SQLite behaves as the model symx/models/env_sqlite.c']
for l in range(8): case('name.%d'%l,len=l,reach=['done']+(['known'] if l>3 else []),time=300,f='name')
case('near',reach=['done'],time=300)
case('emit',reach=['on','off'],time=600)
case('own',reach=['on','off'],time=600)
for l in range(4): case('file.%d'%l,len=l,reach=['done'],time=500,f='file')
case('cached',reach=['done'],time=600)
for l in range(3): case('bad.%d'%l,len=l,reach=['done'],time=500,f='bad')
case('init',reach=['done'],time=400)
case('tofile',reach=['done'],time=400)
case('two',reach=['done'],time=600,conc=True)
*/
#include "symx.h"
#include "env.h"
#include "sqlite3util.h"
#include "Configuration.h"
#include "Logger.h"
#include "Threads.h"
#include <string.h>
ConfigurationTable gConfig;
int levelStringToInt(const std::string&); int getLoggingLevel(const char*); extern Mutex alarmsLock;
static const char*NM[]={"EMERG","ALERT","CRIT","ERR","WARNING","NOTICE","INFO","DEBUG","INFORMATION","WARN","ERROR","CRITICAL","EMERGENCY"}; static const int VAL[]={0,1,2,3,4,5,6,7,6,4,3,2,0};
static int same(const char*a,const std::string&b){ if(strlen(a)!=b.size()) return 0; int d=0; for(size_t i=0;i<b.size();i++) d|=a[i]^b[i]; return d==0; }
static int refLvl(const std::string&t){ int r=-1; for(int i=0;i<13;i++) if(strlen(NM[i])==t.size()) r=__sx_ite(same(NM[i],t),VAL[i],r); return r; }
static std::string sb(int n,const char*nm){ char b[8]; sym_bytes(b,n,nm); for(int i=0;i<n;i++) SYM_ASSUME(b[i]!=0); return std::string(b,n); }
static void name(){ std::string t=sb(sym_param("len",3),"name"); int r=levelStringToInt(t); if(r>=0) sym_reach("known"); SYM_ASSERT(r==refLvl(t),"a level exactly for the known names"); sym_reach("done"); }
static void near(){ std::string t=NM[sym_choice(13,"name")]; int at=sym_choice(11,"at"); if(at<(int)t.size()){ char c=sym<char>("byte"); SYM_ASSUME(c!=0); t[at]=c; } else if(at==10) t+=sym_choice(2,"more")?" ":"a"; int r=levelStringToInt(t); SYM_ASSERT(r==refLvl(t),"a level exactly for the known names"); sym_reach("done"); }
static void put(const char*k,const std::string&v){ SYM_ASSERT(gConfig.set(k,v),"set"); }
static int gEval; static char gMsg[3]; static const char*msg(){ gEval++; return gMsg; }
#line 1 "some.cpp"
static void say(int lvl){ switch(lvl){ case 0: LOG(EMERG)<<msg(); break; case 1: LOG(ALERT)<<msg(); break; case 2: LOG(CRIT)<<msg(); break; case 3: LOG(ERR)<<msg(); break; case 4: LOG(WARNING)<<msg(); break; case 5: LOG(NOTICE)<<msg(); break; case 6: LOG(INFO)<<msg(); break; default: LOG(DEBUG)<<msg(); } }
#line 52 "L02.cpp"
static int after(const char*t,unsigned n,const char*what){ unsigned k=strlen(what); return n>=k&&!strncmp(t,what,k); }
static void emitted(int lvl,int conf){ int n=env_nlog; gEval=0; int len=sym_choice(3,"len"); sym_bytes(gMsg,len,"text"); for(int i=0;i<len;i++) SYM_ASSUME(gMsg[i]!=0); gMsg[len]=0; say(lvl); bool on=lvl<=conf; SYM_ASSERT(gEval==(on?1:0),"evaluated exactly when enabled"); SYM_ASSERT(env_nlog==n+(on?1:0),"one record exactly when enabled"); if(!on){ sym_reach("off"); return; } sym_reach("on"); SYM_ASSERT((env_loglev[n]&7)==lvl,"at its own severity"); const char*t=env_logtxt[n]; unsigned long z=env_loglen[n]; SYM_ASSERT(z<255&&z>(unsigned long)len+20,"complete"); SYM_ASSERT(after(t,z,NM[lvl])&&t[strlen(NM[lvl])]==' ',"names its severity"); SYM_ASSERT(same(gMsg,std::string(t+z-len,len)),"ends with its text"); static const char P[]=":1:say: "; SYM_ASSERT(!memcmp(t+z-len-(sizeof P-1),P,sizeof P-1),"names its place"); SYM_ASSERT(!memcmp(t+z-len-(sizeof P-1)-8,"some.cpp",8),"names its file"); }
static void emit(){ int g=sym_choice(13,"global"); put("Log.Level",NM[g]); env_nlog=0; emitted(sym_choice(8,"level"),VAL[g]); }
static void own(){ int g=sym_choice(8,"global"),o=sym_choice(10,"own"); put("Log.Level",NM[g]); if(o<9) put("Log.Level.some.cpp",o==8?"":NM[o]); put("Log.Level.some.cp","EMERG"); put("Log.Level.some.cppx","EMERG"); env_nlog=0; emitted(sym_choice(8,"level"),o<8?o:g); }
static void file(){ put("Log.Level","ERR"); put("Log.Level.ab","DEBUG"); put("Log.Level.abc","INFO"); put("Log.Level.x","EMERG"); int n=sym_param("len",2); std::string f[2]; f[0]=sb(n,"file"); f[1]=sb(sym_choice(4,"len2"),"file2"); for(int k=0;k<4;k++){ const std::string&s=f[k&1]; int w=same("ab",s)?7:same("abc",s)?6:same("x",s)?0:3; SYM_ASSERT(gGetLoggingLevel(s.c_str())==w,"the setting of the file, or else the global one"); } SYM_ASSERT(gGetLoggingLevel()==3,"without a file the global one"); sym_reach("done"); }
static void cached(){ int a=sym_choice(8,"first"),b=sym_choice(8,"then"); bool per=sym_choice(2,"perfile"); if(per) put("Log.Level","CRIT"); const char*k=per?"Log.Level.f":"Log.Level"; put(k,NM[a]); int pre=sym_choice(3,"before"); for(int i=0;i<(pre==2?1000:pre);i++) SYM_ASSERT(gGetLoggingLevel("f")==a,"as configured"); put(k,NM[b]); SYM_ASSERT(getLoggingLevel("f")==b,"the configured level at once"); bool sw=false; for(int i=0;i<1002;i++){ int l=gGetLoggingLevel("f"); if(l==b) sw=true; SYM_ASSERT(l==b||(l==a&&!sw),"the old level until the new one"); } SYM_ASSERT(gGetLoggingLevel("f")==b,"the new level within 1002 lookups"); sym_reach("done"); }
static void bad(){ std::string t=sb(sym_param("len",1),"setting"); bool per=sym_choice(2,"perfile"); put("Log.Level","ERR"); put(per?"Log.Level.f":"Log.Level",t); env_nlog=0; int want=per&&t.empty()?3:5; SYM_ASSERT(getLoggingLevel("f")==want,"an unknown name gives the default level"); if(want==5){ SYM_ASSERT(env_nlog==1&&(env_loglev[0]&7)==2,"and is reported"); SYM_ASSERT(gConfig.getStr(per?"Log.Level.f":"Log.Level")=="NOTICE","and replaced by the default"); SYM_ASSERT(getLoggingLevel("f")==5&&env_nlog==1,"once"); } else SYM_ASSERT(env_nlog==0,"an empty setting is none"); sym_reach("done"); }
static void init(){ int g=sym_choice(8,"global"); env_nlog=0; { Log dummy("prog",NM[g]); } SYM_ASSERT(env_nlog==0,"initialising logs nothing"); SYM_ASSERT(gConfig.getStr("Log.Level")==NM[g],"the level given is set"); emitted(sym_choice(8,"level"),g); sym_reach("done"); }
extern FILE*gLogToFile; static void tofile(){ put("Log.Level","NOTICE"); char fn[]="log.txt"; gLogInitWithFile("prog",0,0,fn); SYM_ASSERT(gLogToFile!=0,"the log file is open"); std::string want; for(int i=0;i<2;i++){ int len=sym_choice(3,"len"); sym_bytes(gMsg,len,"text"); for(int k=0;k<len;k++) SYM_ASSUME(gMsg[k]!=0); gMsg[len]=0; { Log(4+i).get()<<gMsg; } want+=std::string(NM[4+i])+" "+gMsg; if(want[want.size()-1]!='\n') want+='\n'; } LOG(INFO)<<"not enabled"; char b[200]; FILE*f=fopen("log.txt","r"); SYM_ASSERT(f!=0,"the log file exists"); size_t n=fread(b,1,sizeof b,f); fclose(f); size_t a=0; while(a<n&&b[a]!='\n') a++; a++; SYM_ASSERT(n-a==want.size(),"every record is in the file once"); int d=0; for(size_t i=0;i<want.size();i++) d|=b[a+i]^want[i]; SYM_ASSERT(d==0,"whole, each on a line"); sym_reach("done"); }
static int gSeen[2]; static void*asker(void*p){ long i=(long)p; gSeen[i]=gGetLoggingLevel("f"); return 0; }
static void two(){ env_preempt=1; put("Log.Level","ERR"); put("Log.Level.g","DEBUG"); Thread a,b; a.start(asker,(void*)0); b.start(asker,(void*)1); int l=gGetLoggingLevel("g"); SYM_ASSERT(l==7,"its own"); put("Log.Level.f","INFO"); a.join(); b.join(); for(int i=0;i<2;i++) SYM_ASSERT(gSeen[i]==3||gSeen[i]==6,"the old or the new setting"); sym_reach("done"); }
extern "C" void harness_main(void){ H(name) H(near) H(emit) H(own) H(file) H(cached) H(bad) H(init) H(tofile) H(two) sym_fail("unknown case"); }
