/*SPEC
BOUNDS='every history of 4 operations (a change, a removal by another connection, a change or removal through either table, an explicit purge, a read through either table), each followed by any lapse of 0 to 4.999999 seconds in microseconds, over a key with and one without a default, two tables open on the same database, followed by a read through both; the time of day set back or forward by up to a year at every step'
OUTSIDE='reads that fail; more than 4 operations (the age of a cache depends only on the last purge, so longer histories repeat these)'
ASSUMES=['SQLite behaves as the model symx/models/env_sqlite.c (compared with the real library on every natively replayed path)','the steady clock of the system advances with real time']
for s in (0,1):
  for o in range(8): case('hist.%d%d'%(s,o),schema=s,op=o,n=4,wall=0,reach=['done'],time=600,f='hist')
for s in (0,1):
  for o in range(8): case('hist5.%d%d'%(s,o),schema=s,op=o,n=5,wall=0,reach=['done'],time=700,f='hist',tier='thorough')
case('wall',schema=1,op=2,n=3,wall=1,reach=['done'],time=600,f='hist')
case('wall2',schema=0,op=0,n=3,wall=1,reach=['done'],time=600,f='hist')
case('often',reach=['done'],time=300)
case('early',reach=['done'],time=300)
*/
#include "symx.h"
#include "env.h"
#include "sqlite3util.h"
#include "Configuration.h"
#include <string.h>
ConfigurationTable gConfig;
static ConfigurationTable*T[2]; static const char*KEY; static int gSchema;
static struct Ch{ long s,u; char v; } H_[10]; static int nh,lo[2]; static char nextv='1';
static void changed(char v){ H_[nh].s=env_split_s; H_[nh].u=env_split_us; H_[nh].v=v; nh++; }
static void foreign(char v){ std::string q; int rc; if(v=='-') q=std::string("DELETE FROM CONFIG WHERE KEYSTRING=='")+KEY+"'"; else q=std::string("REPLACE INTO CONFIG (KEYSTRING,VALUESTRING) VALUES ('")+KEY+"','"+v+"')"; rc=env_sql_exec("c.db",q.c_str()); SYM_ASSERT(rc==101,"harness: statement"); changed(v); }
static char readv(int t){ std::string s; try{ s=T[t]->getStr(KEY); }catch(ConfigurationTableKeyNotFound&){ return gSchema?'!':'-'; } if(gSchema&&s=="dflt") return '-'; return s.size()==1?s[0]:'?'; }
static void rd(int t){ char c=readv(t); int ok=0; for(int i=lo[t];i<nh;i++) if(H_[i].v==c){ if(i==nh-1) ok=1; else { long ds=env_split_s-H_[i+1].s, du=env_split_us-H_[i+1].u; ok|=(ds<3)|((ds==3)&(du<0)); } } SYM_ASSERT(ok,"a value stored within the last three seconds, and not older than a change through the same table"); }
static void lapse(int wall){ unsigned char ds=sym<unsigned char>("seconds"); SYM_ASSUME(ds<=4); unsigned du=(unsigned)sym_range(0,999999,"microseconds"); long u=env_split_us+du; long c=__sx_ite(u>=1000000,1,0); env_split_us=u-c*1000000; env_split_s+=ds+c; if(wall) env_wall_off=(sym_choice(3,"wall")-1)*31536000ll*1000000; }
static void op(int k){ switch(k){ case 0: foreign(nextv++); break; case 1: { char b[2]={nextv++,0}; SYM_ASSERT(T[0]->set(KEY,std::string(b)),"set"); changed(b[0]); lo[0]=nh-1; break; } case 2: rd(0); break; case 3: rd(1); break; case 4: foreign('-'); break; case 5: SYM_ASSERT(T[1]->remove(KEY),"remove"); changed('-'); lo[1]=nh-1; break; case 6: T[0]->purge(); lo[0]=nh-1; break; case 7: { char b[2]={nextv++,0}; SYM_ASSERT(T[1]->set(KEY,std::string(b)),"set"); changed(b[0]); lo[1]=nh-1; break; } } }
static void open2(){ gSchema=sym_param("schema",1); KEY=gSchema?"A.k":"b"; env_split=1; env_split_s=1000; env_split_us=0; ConfigurationKeyMap m; ConfigurationKey k("A.k","dflt","",ConfigurationKey::CUSTOMER,ConfigurationKey::STRING,"",false,"d"); m["A.k"]=k; for(int i=0;i<2;i++) T[i]=new ConfigurationTable("c.db","test",m); changed('-'); }
static void hist(){ int w=sym_param("wall",0); open2(); if(sym_choice(2,"cached")){ rd(0); rd(1); lapse(w); } op(sym_param("op",0)); lapse(w); for(int i=1;i<sym_param("n",4);i++){ op(sym_choice(8,"op")); lapse(w); } rd(0); rd(1); sym_reach("done"); }
// frequent reads do not keep a value alive
static void often(){ open2(); rd(0); lapse(0); foreign('1'); long s0=env_split_s,u0=env_split_us; for(int i=0;i<6;i++){ rd(0); lapse(0); } long ds=env_split_s-s0,du=env_split_us-u0; if(ds>3||(ds==3&&du>=0)) SYM_ASSERT(readv(0)=='1',"the change is seen after three seconds"); sym_reach("done"); }
// the steady clock may read anything when the table is opened
static void early(){ open2(); env_split_s=sym_range(0,5,"boot"); T[0]=new ConfigurationTable("c.db","test",ConfigurationKeyMap()); KEY="b"; gSchema=0; nh=0; lo[0]=0; changed('-'); rd(0); lapse(0); foreign('1'); lapse(0); rd(0); sym_reach("done"); }
extern "C" void harness_main(void){ H(hist) H(often) H(early) sym_fail("unknown case"); }
