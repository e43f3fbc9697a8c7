/*SPEC
BOUNDS='sequences of 1 to 6 records of every severity with a symbolic byte in each text (texts of 0, 1, 2 or 300 characters), every maximum from 0 to 4 and one change of the maximum at any point; two threads adding 2 alarms each, and one adding alarms while another reads the list, every interleaving (scheduling points at mutex operations)'
OUTSIDE='negative maxima (refused by validation of the key); texts containing a NUL byte'
ASSUMES=['SQLite behaves as the model symx/models/env_sqlite.c']
for n in range(1,7): case('seq.%d'%n,n=n,reach=['alarm','dropped'] if n>3 else ['alarm'],time=600,f='seq')
case('change',reach=['shrunk'],time=600)
case('texts',reach=['done'],time=300)
case('two',reach=['done'],time=600,conc=True)
case('reader',reach=['done'],time=600,conc=True)
*/
#include "symx.h"
#include "env.h"
#include "sqlite3util.h"
#include "Configuration.h"
#include "Logger.h"
#include "Threads.h"
#include <string.h>
#include <vector>
ConfigurationTable gConfig;
extern Mutex alarmsLock;
static const char*NM[]={"EMERG","ALERT","CRIT","ERR","WARNING","NOTICE","INFO","DEBUG"};
static int same(const std::string&a,const std::string&b){ if(a.size()!=b.size()) return 0; int d=0; for(size_t i=0;i<a.size();i++) d|=a[i]^b[i]; return d==0; }
static std::vector<std::string> M; static void check(unsigned max){ std::list<std::string> l=gGetLoggerAlarms(); size_t n=M.size()<max?M.size():max; SYM_ASSERT(l.size()==n,"as many alarms as there were, up to the maximum"); size_t i=M.size()-n; for(const std::string&s:l) SYM_ASSERT(same(s,M[i++]),"the most recent alarms, in order"); }
static void rec(int lvl,const std::string&text){ int n=env_nlog; { Log(lvl).get()<<text; } std::string t=std::string(NM[lvl])+" "+text; SYM_ASSERT(env_nlog==n+1,"exactly one log record"); SYM_ASSERT((env_loglev[n]&7)==lvl,"at its own severity"); SYM_ASSERT(env_loglen[n]==t.size(),"with the complete text"); SYM_ASSERT(same(std::string(env_logtxt[n],t.size()<255?t.size():255),t.substr(0,255)),"with exactly its text"); if(lvl<=2){ M.push_back(t); sym_reach("alarm"); } }
static void start(unsigned max){ SYM_ASSERT(gConfig.set("Log.Alarms.Max",(long)max),"set"); SYM_ASSERT(gConfig.set("Log.Level",std::string("NOTICE")),"set"); env_nlog=0; }
static void seq(){ int n=sym_param("n",3); unsigned max=sym_choice(n>4?4:5,"max"); start(max); for(int i=0;i<n;i++){ int lvl=n>3?(sym_choice(2,"alarm")?i%3:3+i%5):sym_choice(8,"level"); char b[2]={(char)sym<char>("byte"),0}; SYM_ASSUME(b[0]!=0); rec(lvl,b); check(max); } if(M.size()>max) sym_reach("dropped"); }
static void change(){ unsigned a=sym_choice(5,"max"),b=sym_choice(5,"max2"); int at=sym_choice(5,"at"); start(a); for(int i=0;i<6;i++){ char t[2]={(char)sym<char>("byte"),0}; SYM_ASSUME(t[0]!=0); if(i==at+1) SYM_ASSERT(gConfig.set("Log.Alarms.Max",(long)b),"set"); if(i==at+1&&b>a){ while(M.size()>a) M.erase(M.begin()); } rec(2,t); check(i>at?b:a); } if(b<a) sym_reach("shrunk"); }
static void texts(){ start(3); static const int L[]={0,1,2,300}; for(int k=0;k<2;k++){ int n=L[sym_choice(4,"len")]; std::string t(n,'x'); if(n){ char c=sym<char>("byte"); SYM_ASSUME(c!=0); t[n-1]=c; } rec(k?0:2,t); check(3); } std::list<std::string> l=gGetLoggerAlarms(); l.front()="changed"; check(3); sym_reach("done"); }
static char gOrder[2][2]; static void*adder(void*p){ long id=(long)p; for(int i=0;i<2;i++){ Log(2).get()<<(char)('a'+id*2+i); } return 0; }
static void two(){ env_preempt=1; int max=1+sym_choice(4,"max"); start(max); Thread a,b; a.start(adder,(void*)0); b.start(adder,(void*)1); a.join(); b.join(); std::list<std::string> l=gGetLoggerAlarms(); SYM_ASSERT((int)l.size()==max,"none is lost within the maximum"); int pos[4]={-1,-1,-1,-1},i=0; for(const std::string&s:l){ SYM_ASSERT(s.size()==6&&!s.compare(0,5,"CRIT ")&&s[5]>='a'&&s[5]<='d',"a whole message"); int k=s[5]-'a'; SYM_ASSERT(pos[k]<0,"each once"); pos[k]=i++; } for(int t=0;t<2;t++){ SYM_ASSERT(!(pos[t*2]>=0&&pos[t*2+1]<0),"an older alarm is dropped first"); if(pos[t*2]>=0) SYM_ASSERT(pos[t*2]<pos[t*2+1],"in order of arrival"); } SYM_ASSERT(env_nlog==4,"every alarm is also a record"); sym_reach("done"); }
static void*one(void*){ for(int i=0;i<3;i++) Log(1).get()<<(char)('a'+i); return 0; }
static void reader(){ env_preempt=1; int max=1+sym_choice(3,"max"); start(max); Thread a; a.start(one,0); int last=-1; for(int r=0;r<2;r++){ std::list<std::string> l=gGetLoggerAlarms(); SYM_ASSERT((int)l.size()<=max,"never more than the maximum"); int prev=-1; for(const std::string&s:l){ SYM_ASSERT(s.size()==7&&!s.compare(0,6,"ALERT "),"a whole message"); int k=s[6]-'a'; SYM_ASSERT(prev<0||k==prev+1,"consecutive alarms"); prev=k; } SYM_ASSERT(prev>=last,"no later view is older"); if(!l.empty()) SYM_ASSERT((int)l.size()==(prev+1<max?prev+1:max),"up to the maximum"); last=prev; } a.join(); sym_reach("done"); }
extern "C" void harness_main(void){ H(seq) H(change) H(texts) H(two) H(reader) sym_fail("unknown case"); }
