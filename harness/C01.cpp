/*SPEC
BOUNDS='every sequence of 3 set, remove, read, purge or reopen operations over three keys (one with a schema default, one of 1 to 2 arbitrary bytes, one with quotes) with values of 0 to 2 arbitrary bytes; every pair of keys of up to 3 arbitrary bytes with values of up to 4; keys and values of 30 to 400 bytes with arbitrary ones among them; every long number as a value; one failing statement; two threads setting and reading with up to 2 preemptions'
OUTSIDE='keys and values containing a NUL byte; a database that cannot be read (the default is used until the next purge)'
ASSUMES=['SQLite behaves as the model symx/models/env_sqlite.c (compared with the real library on every natively replayed path)']
for a in range(3):
  for b in range(5): case('hist.%d%d'%(a,b),key=a,op=b,n=3,reach=['done'],time=600,f='hist')
for a in range(4): case('pair.%d'%a,kl=a,reach=['done'],time=600,f='pair')
for v in range(5): case('value.%d'%v,vl=v,reach=['done'],time=600,f='value')
for l in (30,99,200,400): case('long.%d'%l,len=l,reach=['done'],time=400,f='longtext')
case('num',reach=['done'],time=400)
case('nodb',reach=['done'],time=300)
case('setfail',reach=['done'],time=400)
case('removefail',reach=['done'],time=400)
case('nullvalue',reach=['done'],time=400)
case('pairs',reach=['done'],time=400)
case('defsql',reach=['done'],time=500)
case('hook',reach=['done'],time=400)
case('threads',reach=['done'],time=600,conc=True)
*/
#include "symx.h"
#include "env.h"
#include "sqlite3util.h"
#include "Configuration.h"
#include "Threads.h"
#include <string.h>
ConfigurationTable gConfig;
static std::string symText(int n,const char*nm){ char b[8]; sym_bytes(b,n,nm); for(int i=0;i<n;i++) SYM_ASSUME(b[i]!=0); return std::string(b,n); }
static int same(const std::string&a,const std::string&b){ if(a.size()!=b.size()) return 0; int d=0; for(size_t i=0;i<a.size();i++) d|=a[i]^b[i]; return d==0; }
static const char*DEF="d'e\"f";
static ConfigurationKeyMap schema(){ ConfigurationKeyMap m; ConfigurationKey k("A.k",DEF,"",ConfigurationKey::CUSTOMER,ConfigurationKey::STRING,"",false,"the 'first' \"key\""); m[k.getName()]=k; ConfigurationKey e("A.e","","",ConfigurationKey::CUSTOMER,ConfigurationKey::STRING_OPT,"",true,"no default"); m[e.getName()]=e; return m; }
static ConfigurationTable*T; static void openT(){ T=new ConfigurationTable("c.db","test",schema()); }
static void expect(const std::string&key,int has,const std::string&val){ bool thrown=false; std::string s; try{ s=T->getStr(key); }catch(ConfigurationTableKeyNotFound&e){ thrown=true; SYM_ASSERT(same(e.key(),key),"the key that was not found"); } SYM_ASSERT(thrown==!has,"a key without value or default is reported as not found"); if(has) SYM_ASSERT(same(s,val),"the value last set, or the default"); SYM_ASSERT(T->defines(key)==(has!=0),"defined exactly when it has a value"); }
static std::string K[3],V[3]; static bool has[3];
static void check(int w){ expect(K[w],has[w]||w==0,has[w]?V[w]:std::string(w==0?DEF:"")); }
static void doop(int op,int w,int i){ switch(op){ case 0: { std::string v=symText(i==0?sym_choice(3,"vlen"):1,"value"); SYM_ASSERT(T->set(K[w],v),"set"); V[w]=v; has[w]=true; break; } case 1: SYM_ASSERT(T->remove(K[w]),"remove"); has[w]=false; break; case 2: check(w); break; case 3: T->purge(); break; default: openT(); } }
static void hist(){ openT(); K[0]="A.k"; K[1]=symText(1,"key1"); K[2]="k'\""; SYM_ASSERT(T->set("other","x"),"set"); doop(sym_param("op",0),sym_param("key",0),0); for(int i=1;i<sym_param("n",3);i++) { int op=sym_choice(5,"op"); doop(op,op<3?sym_choice(3,"key"):0,i); } check(0); check(1); check(2); expect("other",1,"x"); openT(); check(0); check(1); check(2); sym_reach("done"); }
static void pair(){ openT(); int n=sym_param("kl",1); std::string a=symText(n,"a"),b=symText(n==3?3:n?2:1,"b"); SYM_ASSUME(!same(a,b)&&!same(a,"A.k")&&!same(b,"A.k")&&!same(a,"A.e")&&!same(b,"A.e")); SYM_ASSERT(T->set(a,std::string("v'1")),"set"); SYM_ASSERT(T->set(b,std::string("v\"2")),"set"); expect(a,1,"v'1"); expect(b,1,"v\"2"); SYM_ASSERT(T->remove(a),"remove"); expect(a,0,""); expect(b,1,"v\"2"); openT(); expect(a,0,""); expect(b,1,"v\"2"); expect("A.k",1,DEF); sym_reach("done"); }
static void value(){ openT(); std::string v=symText(sym_param("vl",1),"v"); SYM_ASSERT(T->set("A.k",v),"set"); SYM_ASSERT(T->set("b",std::string("B")),"set"); expect("A.k",1,v); T->purge(); expect("A.k",1,v); expect("b",1,"B"); openT(); expect("A.k",1,v); expect("b",1,"B"); SYM_ASSERT(T->remove("A.k"),"remove"); expect("A.k",1,DEF); sym_reach("done"); }
static void longtext(){ openT(); int n=sym_param("len",30); std::string k(n,'k'),v(n,'v'); std::string s=symText(2,"b"); k[n-1]=s[0]; v[n-1]=s[1]; std::string k2=k; k2[0]='j'; SYM_ASSERT(T->set(k2,std::string("other")),"set"); SYM_ASSERT(T->set(k,v),"set"); openT(); expect(k,1,v); expect(k2,1,"other"); SYM_ASSERT(T->remove(k),"remove"); expect(k,0,""); expect(k2,1,"other"); sym_reach("done"); }
static void num(){ openT(); static const long N[]={0,-1,7,2147483648l,9223372036854775807l,-9223372036854775807l-1}; long v=N[sym_choice(6,"v")]; char b[32]; sprintf(b,"%ld",v); SYM_ASSERT(T->set("A.k",v),"set"); expect("A.k",1,b); SYM_ASSERT(T->getNum("A.k")==v,"the number"); openT(); SYM_ASSERT(T->getNum("A.k")==v,"the number"); sym_reach("done"); }
static std::vector<std::string> cc(const std::string&k){ std::vector<std::string> r; r.push_back("about "+k); return r; }
static void nodb(){ char mem[sizeof(ConfigurationTable)+64]; int ok=sym_choice(2,"opens"); env_sql_fail_open=!ok; char*at=mem; while((unsigned long)at%16) at++; memset(at,0xff,sizeof(ConfigurationTable)); ConfigurationTable*t=new(at) ConfigurationTable("c.db","test",schema()); SYM_ASSERT(t->crossCheck("k").empty(),"nothing to say without a hook"); t->setCrossCheckHook(cc); std::vector<std::string> r=t->crossCheck("k"); SYM_ASSERT(r.size()==1&&r[0]=="about k","what the hook says"); sym_reach("done"); }
static int failSet,failDel; static int hookf(int op,const char*sql){ if(op==1&&failSet&&!strncmp(sql,"INSERT",6)) return 11; if(op==1&&failDel&&!strncmp(sql,"DELETE",6)) return 11; return 0; }
static void setfail(){ openT(); int w=sym_choice(2,"schema"); std::string k=w?"A.k":"b"; if(sym_choice(2,"before")) SYM_ASSERT(T->set(k,std::string("one")),"set"),V[0]="one"; else V[0]=DEF; int h=w||V[0]=="one"; if(sym_choice(2,"cached")) expect(k,h,V[0]); env_sql_hook=hookf; failSet=1; SYM_ASSERT(!T->set(k,std::string("two")),"a set that fails says so"); failSet=0; expect(k,h,V[0]); T->purge(); expect(k,h,V[0]); SYM_ASSERT(T->set(k,std::string("three")),"set"); expect(k,1,"three"); sym_reach("done"); }
static void removefail(){ openT(); int w=sym_choice(2,"schema"); std::string k=w?"A.k":"b"; SYM_ASSERT(T->set(k,std::string("one")),"set"); if(sym_choice(2,"cached")) expect(k,1,"one"); env_sql_hook=hookf; failDel=1; SYM_ASSERT(!T->remove(k),"a remove that fails says so"); failDel=0; expect(k,1,"one"); SYM_ASSERT(T->remove(k),"remove"); expect(k,w,DEF); sym_reach("done"); }
static void nullvalue(){ openT(); SYM_ASSERT(env_sql_exec("c.db","INSERT INTO CONFIG (KEYSTRING) VALUES ('A.k')")==101,"exec"); SYM_ASSERT(env_sql_exec("c.db","INSERT INTO CONFIG (KEYSTRING) VALUES ('b')")==101,"exec"); expect("A.k",1,DEF); expect("b",0,""); expect("A.e",1,""); SYM_ASSERT(T->set("b",std::string("")),"set"); expect("b",1,""); SYM_ASSERT(T->set("A.k",std::string("")),"set"); expect("A.k",1,""); sym_reach("done"); }
static void pairs(){ openT(); std::string v=symText(2,"v"); SYM_ASSERT(T->set("b",v)&&T->set("A.k",std::string("x"))&&T->set("c",5)&&T->remove("A.k"),"set"); SYM_ASSERT(env_sql_exec("c.db","INSERT INTO CONFIG (KEYSTRING) VALUES ('n')")==101,"exec"); ConfigurationRecordMap m=T->getAllPairs(); SYM_ASSERT(m.size()==3&&m.count("b")&&m.count("c")&&m.count("n"),"exactly the stored keys"); SYM_ASSERT(m["b"].defined()&&same(m["b"].value(),v)&&m["c"].defined()&&m["c"].value()=="5"&&!m["n"].defined(),"with their values"); SYM_ASSERT(T->isStatic("A.e")&&!T->isStatic("A.k")&&!T->isStatic("zz")&&!T->keyDefinedInSchema("zz")&&T->keyDefinedInSchema("A.e"),"schema"); sym_reach("done"); }
static void defsql(){ ConfigurationKeyMap m=schema(); std::string d=symText(2,"d"); SYM_ASSUME(d[0]!='\n'&&d[1]!='\n'); m["A.k"].updateDefaultValue(d); { ConfigurationKey k("B.s","v","",ConfigurationKey::CUSTOMER,ConfigurationKey::BOOLEAN,"",true,std::string("it's ")+d[0]+" \"quoted\""); m["B.s"]=k; } ConfigurationTable t("c.db","test",m); std::string q=t.getDefaultSQL("prog","1.0"); int rows=0; size_t at=0; while(at<q.size()){ size_t e=q.find('\n',at); SYM_ASSERT(e!=std::string::npos,"lines end"); std::string line=q.substr(at,e-at); at=e+1; if(line.compare(0,6,"INSERT")==0||line.compare(0,6,"CREATE")==0){ rows+=line[0]=='I'; SYM_ASSERT(env_sql_exec("d.db",line.c_str())==101,"the generated statements run"); } }
  SYM_ASSERT(rows==7,"one row for every key of the schema"); ConfigurationKeyMap none; T=new ConfigurationTable("d.db","test",none); expect("A.k",1,d); expect("A.e",1,""); expect("B.s",1,"v"); expect("Log.Level",1,"NOTICE"); char b[64]; int len; SYM_ASSERT(env_sql_get("d.db","SELECT COMMENTS FROM CONFIG WHERE KEYSTRING=='B.s'",b,64,&len)==1&&same(std::string(b,len),std::string("1=enabled, 0=disabled - it's ")+d[0]+" \"quoted\"  Static."),"with its description"); SYM_ASSERT(env_sql_get("d.db","SELECT STATIC FROM CONFIG WHERE KEYSTRING=='B.s'",b,64,&len)==1&&b[0]=='1'&&env_sql_get("d.db","SELECT STATIC FROM CONFIG WHERE KEYSTRING=='A.k'",b,64,&len)==1&&b[0]=='0',"static or not"); sym_reach("done"); }
static int hooks; static void uh(void*,int,const char*,const char*,sqlite3_int64){ hooks++; T->purge(); }
static void hook(){ openT(); T->setUpdateHook(uh); SYM_ASSERT(T->set("b",std::string("1")),"set"); int h=hooks; SYM_ASSERT(h>=1,"the hook hears of changes"); expect("b",1,"1"); SYM_ASSERT(T->set("b",std::string("2")),"set"); expect("b",1,"2"); SYM_ASSERT(T->remove("b"),"remove"); expect("b",0,""); SYM_ASSERT(hooks>h,"the hook hears of changes"); sym_reach("done"); }
static int seen; static void*setter(void*){ SYM_ASSERT(T->set("b",std::string("2")),"set"); return 0; } static void*reader(void*){ for(int i=0;i<2;i++){ std::string s=T->getStr("b"); SYM_ASSERT(s=="1"||s=="2","a value that was set"); SYM_ASSERT(!(seen&&s=="1"),"no going back"); if(s=="2") seen=1; } return 0; }
static void threads(){ env_preempt=sym_param("preempt",2); openT(); SYM_ASSERT(T->set("b",std::string("1")),"set"); if(sym_choice(2,"cached")) T->getStr("b"); Thread a,b; a.start(setter,0); b.start(reader,0); a.join(); b.join(); expect("b",1,"2"); sym_reach("done"); }
extern "C" void harness_main(void){ H(hist) H(pair) H(value) H(longtext) H(num) H(nodb) H(setfail) H(removefail) H(nullvalue) H(pairs) H(defsql) H(hook) H(threads) sym_fail("unknown case"); }
