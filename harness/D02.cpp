/*SPEC
BOUNDS='tables of up to 3 rows; requested keys of 0 to 3 arbitrary non-NUL bytes (and 85 to 400 bytes with arbitrary ones among them) against stored keys of 1 to 2 arbitrary bytes, string and integer key columns, text, integer, empty and NULL values; every unsigned number key; attributes: any 3 set or get operations over names and values of 0 to 2 arbitrary bytes, and lengths up to 400'
OUTSIDE='keys and values containing a NUL byte; table and column names other than plain identifiers (they are part of the statement text by design)'
ASSUMES=['SQLite behaves as the model symx/models/env_sqlite.c (compared with the real library on every natively replayed path)']
for l in range(4): case('str.%d'%l,len=l,reach=['found','absent'] if l in(1,2) else ['absent'],time=500,f='str')
for l in (85,99,180,400): case('long.%d'%l,len=l,reach=['found'],time=300,f='longkey')
case('num',reach=['found','absent'],time=300)
case('intkey',reach=['found','absent'],time=300)
case('value',reach=['found','null'],time=400)
case('numvalue',reach=['found','null'],time=400)
case('number',reach=['found'],time=300)
case('rows',reach=['done'],time=300)
case('cond',reach=['done'],time=300)
case('attr',n=3,reach=['done'],time=600)
for l in (40,80,120,400): case('attrlong.%d'%l,len=l,reach=['done'],time=300,f='attrlong')
case('attrkeep',reach=['done'],time=300)
case('notable',reach=['done'],time=300)
*/
#include "symx.h"
#include "env.h"
#include "sqlite3util.h"
#include "Configuration.h"
#include <string.h>
#include <stdlib.h>
ConfigurationTable gConfig;
static sqlite3*db; static void ex(const std::string&q){ sqlite3_stmt*s=0; int rc=sqlite3_prepare_v2(db,q.c_str(),-1,&s,0); SYM_ASSERT(rc==0,"harness: prepare"); rc=sqlite3_step(s); SYM_ASSERT(rc==101||rc==100,"harness: step"); sqlite3_finalize(s); }
static std::string q(const std::string&v){ std::string r="'"; for(size_t i=0;i<v.size();i++){ if(v[i]=='\'') r+='\''; r+=v[i]; } return r+"'"; }
static void openDb(){ int rc=sqlite3_open(":memory:",&db); SYM_ASSERT(rc==0,"open"); }
static std::string symText(int n,const char*nm){ char b[8]; sym_bytes(b,n,nm); for(int i=0;i<n;i++) SYM_ASSUME(b[i]!=0); return std::string(b,n); }
static int same(const std::string&a,const std::string&b){ if(a.size()!=b.size()) return 0; int d=0; for(size_t i=0;i<a.size();i++) d|=a[i]^b[i]; return d==0; }
// all ways of looking up the value of column v in the row whose k equals key
static void lookups(const std::string&key,int want,const std::string&val,unsigned num){ // want: -1 absent
  char*p=(char*)1; bool r=sqlite3_single_lookup(db,"t","k",key.c_str(),"v",p); SYM_ASSERT(r==(want>=0),"found exactly when a row has this key"); if(r){ SYM_ASSERT(p&&same(p,val),"the value of that row"); free(p); } else SYM_ASSERT(p==0,"nothing returned when absent");
  std::string s="old"; r=sqlite_single_lookup(db,"t","k",key.c_str(),"v",s); SYM_ASSERT(r==(want>=0),"found exactly when a row has this key"); SYM_ASSERT(same(s,want>=0?val:"old"),"the value of that row, or untouched");
  unsigned u=77; r=sqlite3_single_lookup(db,"t","k",key.c_str(),"n",u); SYM_ASSERT(r==(want>=0),"found exactly when a row has this key"); SYM_ASSERT(u==(want>=0?num:77),"the number of that row, or untouched");
  SYM_ASSERT(sqlite3_exists(db,"t","k",key.c_str())==(want>=0),"exists exactly when a row has this key");
  sqlQuery Q(db,"t","v,n","k",key.c_str()); SYM_ASSERT(Q.sqlSuccess()==(want>=0),"found exactly when a row has this key"); SYM_ASSERT(same(Q.getResultText(0),want>=0?val:"")&&Q.getResultInt(1)==(want>=0?(int)num:0),"its columns"); SYM_ASSERT(Q.sqlResultSize()==(want>=0?2u:0u),"the number of columns"); if(want>=0) SYM_ASSERT(!Q.sqlStep()&&!Q.sqlSuccess(),"one row");
  SYM_ASSERT(env_sql_prepared==env_sql_finalized+(want>=-1),"only the open query remains"); }
// column names are single letters, so symbolic keys include them
static void str(){ openDb(); ex("CREATE TABLE t (k TEXT UNIQUE, v TEXT, n INTEGER)"); int n=sym_param("len",1); int L1=n==3?2:(n?n:1); std::string k0=symText(L1,"k0"),v0="A'v"; SYM_ASSUME(!same(k0,"zz")); ex("INSERT INTO t VALUES ("+q(k0)+","+q(v0)+",41)"); ex("INSERT INTO t VALUES ('zz','B',42)"); std::string key=symText(n,"key"); int want=-1; if(same(key,k0)) want=0; else if(same(key,"zz")) want=1; lookups(key,want,want==0?v0:"B",want==0?41:42); sym_reach(want>=0?"found":"absent"); }
static void longkey(){ openDb(); ex("CREATE TABLE t (k TEXT UNIQUE, v TEXT, n INTEGER)"); int n=sym_param("len",85); std::string k(n,'x'); std::string a=symText(2,"k"); k[n/2]=a[0]; k[n-1]=a[1]; std::string other=k; other[n-2]='y'; ex("INSERT INTO t VALUES ("+q(other)+",'B',42)"); ex("INSERT INTO t VALUES ("+q(k)+",'A',41)"); lookups(k,0,"A",41); lookups(other,1,"B",42); sym_reach("found"); }
static void num(){ openDb(); ex("CREATE TABLE t (k INTEGER, v TEXT)"); ex("INSERT INTO t VALUES (0,'zero')"); ex("INSERT INTO t VALUES (7,'seven')"); ex("INSERT INTO t VALUES (4294967295,'max')"); static const unsigned K[]={0,7,4294967295u,1,70,2147483648u,4294967288u,4294967294u}; static const char*V[]={"zero","seven","max"}; int c=sym_choice(8,"key"); unsigned k=K[c]; const char*w=c<3?V[c]:0; char*p=(char*)1; bool r=sqlite3_single_lookup(db,"t","k",k,"v",p); SYM_ASSERT(r==(w!=0),"found exactly when a row has this key"); SYM_ASSERT(w?p&&!strcmp(p,w):p==0,"the value of that row"); free(p); std::string s="old"; r=sqlite_single_lookup(db,"t","k",k,"v",s); SYM_ASSERT(r==(w!=0)&&same(s,w?w:"old"),"the value of that row"); sqlQuery Q(db,"t","v","k",k); SYM_ASSERT(Q.sqlSuccess()==(w!=0)&&same(Q.getResultText(),w?w:""),"the value of that row"); sym_reach(w?"found":"absent"); }
static void intkey(){ openDb(); ex("CREATE TABLE t (k INTEGER, v TEXT, n INTEGER)"); ex("INSERT INTO t VALUES (5,'five',41)"); ex("INSERT INTO t VALUES (12,'twelve',42)"); int n=1+sym_choice(2,"len"); std::string key=symText(n,"key"); for(int i=0;i<n;i++) SYM_ASSUME(((key[i]>='0')&(key[i]<='9'))|((key[i]>='a')&(key[i]<='z'))|(key[i]=='\'')|(key[i]=='"')); bool f=n==1?key[0]=='5':(key[0]=='0'&&key[1]=='5'),t=n==2&&key[0]=='1'&&key[1]=='2'; lookups(key,f?0:t?1:-1,f?"five":"twelve",f?41:42); sym_reach(f||t?"found":"absent"); }
static void value(){ openDb(); ex("CREATE TABLE t (k TEXT UNIQUE, v TEXT, n INTEGER)"); int L=sym_choice(4,"len"); if(L==3){ ex("INSERT INTO t (k,n) VALUES ('a',9)"); char*p=(char*)1; bool r=sqlite3_single_lookup(db,"t","k","a","v",p); SYM_ASSERT(r&&p==0,"a row without a value"); std::string s="old"; SYM_ASSERT(sqlite_single_lookup(db,"t","k","a","v",s)&&s.empty(),"a row without a value"); sym_reach("null"); return; } std::string v=symText(L,"value"); ex("INSERT INTO t VALUES ('b','other',1)"); ex("INSERT INTO t VALUES ('a',"+q(v)+",9)"); lookups("a",0,v,9); lookups("b",1,"other",1); lookups("c",-1,"",0); sym_reach("found"); }
static void numvalue(){ openDb(); ex("CREATE TABLE t (k INTEGER, v TEXT)"); ex("INSERT INTO t VALUES (8,'other')"); int L=sym_choice(4,"len"); std::string v; if(L==3) ex("INSERT INTO t (k) VALUES (7)"); else { v=symText(L,"value"); ex("INSERT INTO t VALUES (7,"+q(v)+")"); }
  char*p=(char*)1; SYM_ASSERT(sqlite3_single_lookup(db,"t","k",7u,"v",p),"found exactly when a row has this key"); if(L==3) SYM_ASSERT(p==0,"a row without a value"); else { SYM_ASSERT(p&&same(p,v),"the value of that row"); free(p); } std::string s="old"; SYM_ASSERT(sqlite_single_lookup(db,"t","k",7u,"v",s)&&same(s,v),"the value of that row, also when empty"); s="older"; SYM_ASSERT(sqlite_single_lookup(db,"t","k","7","v",s)&&same(s,v),"the value of that row, also when empty"); SYM_ASSERT(same(sqlite_single_lookup_string(db,"t","k","7","v"),v),"the value of that row, as a string"); s="old"; SYM_ASSERT(!sqlite_single_lookup(db,"t","k",9u,"v",s)&&s=="old","nothing for another key"); sqlQuery Q(db,"t","v","k",7u); SYM_ASSERT(Q.sqlSuccess()&&same(Q.getResultText(),v),"the value of that row"); sym_reach(L==3?"null":"found"); }
static void number(){ openDb(); ex("CREATE TABLE t (k TEXT UNIQUE, v TEXT, n INTEGER)"); int n=1+sym_choice(4,"digits"); char b[8]; unsigned want=0; sym_bytes(b,n,"num"); for(int i=0;i<n;i++){ SYM_ASSUME((b[i]>='0')&(b[i]<='9')); want=want*10+(unsigned)(b[i]-'0'); } ex("INSERT INTO t VALUES ('a','x',"+std::string(b,n)+")"); unsigned u=7; bool r=sqlite3_single_lookup(db,"t","k","a","n",u); SYM_ASSERT(r&&u==want,"the number stored"); sqlQuery Q(db,"t","n","k","a"); SYM_ASSERT(Q.getResultInt()==(long long)want,"the number stored"); sym_reach("found"); }
static void rows(){ openDb(); ex("CREATE TABLE t (k TEXT, v TEXT, n INTEGER)"); int n=sym_choice(4,"rows"); unsigned char h[4]; for(int i=0;i<n;i++){ h[i]=sym_choice(2,"match"); char c[2]={(char)('p'+i),0}; ex(std::string("INSERT INTO t VALUES (")+(h[i]?"'a'":"'b'")+",'"+c+"',"+(i==0?"10":i==1?"11":"12")+")"); }
  sqlQuery Q(db,"t","n,v","k","a"); bool more=Q.sqlSuccess(); for(int i=0;i<n;i++) if(h[i]){ SYM_ASSERT(more,"every matching row"); SYM_ASSERT(Q.getResultInt(0)==10+i,"in order"); std::string w(1,(char)('p'+i)); SYM_ASSERT(same(Q.getResultText(1),w),"with its columns"); SYM_ASSERT(Q.sqlResultSize()==2,"columns"); more=Q.sqlStep(); } SYM_ASSERT(!more&&!Q.sqlSuccess()&&!Q.sqlStep(),"and no other"); SYM_ASSERT(Q.getResultText(1).empty()&&Q.getResultInt(0)==0&&Q.sqlResultSize()==0,"nothing after the last"); sym_reach("done"); }
static void cond(){ openDb(); ex("CREATE TABLE t (k TEXT, v TEXT, n INTEGER)"); ex("INSERT INTO t VALUES ('a','x',1)"); ex("INSERT INTO t VALUES ('b','y',2)"); { sqlQuery Q(db,"t","*",""); int c=0; SYM_ASSERT(Q.sqlResultSize()==3,"all columns"); for(bool m=Q.sqlSuccess();m;m=Q.sqlStep()) c++; SYM_ASSERT(c==2,"all rows"); } { sqlQuery Q(db,"t","v","WHERE n == 2 AND k == 'b'"); SYM_ASSERT(Q.sqlSuccess()&&Q.getResultText()=="y"&&!Q.sqlStep(),"the condition selects"); } { sqlQuery Q(db,"t","nosuch","WHERE n == 2"); SYM_ASSERT(!Q.sqlSuccess()&&Q.getResultText().empty()&&!Q.sqlStep(),"an unknown column finds nothing"); } { sqlQuery Q(db,"none","v",""); SYM_ASSERT(!Q.sqlSuccess(),"an unknown table finds nothing"); } SYM_ASSERT(env_sql_prepared==env_sql_finalized,"every statement is finalised"); sym_reach("done"); }
static void attr(){ openDb(); int n=sym_param("n",3); std::string N[2],V[2]; bool has[2]={false,false}; N[0]=symText(1+sym_choice(2,"nlen"),"name0"); N[1]="k'"; SYM_ASSUME(!same(N[0],N[1])); for(int i=0;i<n;i++){ int w=sym_choice(2,"which"); if(sym_choice(2,"op")){ std::string v=symText(i==0?sym_choice(3,"vlen"):1,"value"); SYM_ASSERT(sqlite_set_attr(db,N[w].c_str(),v.c_str()),"set"); V[w]=v; has[w]=true; } else { std::string g=sqlite_get_attr(db,N[w].c_str()); SYM_ASSERT(same(g,has[w]?V[w]:std::string()),"reading gives the value last written"); } }
  for(int w=0;w<2;w++){ std::string g=sqlite_get_attr(db,N[w].c_str()); SYM_ASSERT(same(g,has[w]?V[w]:std::string()),"each attribute has its own last value"); } sym_reach("done"); }
static void attrlong(){ openDb(); int n=sym_param("len",40); std::string k(n,'n'),v(n,'v'); std::string a=symText(2,"b"); k[n-1]=a[0]; v[n-1]=a[1]; std::string k2=k+"2"; SYM_ASSERT(sqlite_set_attr(db,k2.c_str(),"other"),"set"); SYM_ASSERT(sqlite_set_attr(db,k.c_str(),v.c_str()),"set"); SYM_ASSERT(same(sqlite_get_attr(db,k.c_str()),v),"reading gives the value written"); SYM_ASSERT(same(sqlite_get_attr(db,k2.c_str()),"other"),"the other attribute is unchanged"); sym_reach("done"); }
static void attrkeep(){ openDb(); SYM_ASSERT(sqlite_get_attr(db,"A").empty(),"no table yet"); SYM_ASSERT(sqlite_set_attr(db,"A","1"),"set"); SYM_ASSERT(sqlite_set_attr(db,"B","2"),"set"); SYM_ASSERT(sqlite_set_attr(db,"A","3"),"set again"); SYM_ASSERT(sqlite_get_attr(db,"A")=="3"&&sqlite_get_attr(db,"B")=="2"&&sqlite_get_attr(db,"C").empty(),"exactly that attribute changes"); sqlQuery Q(db,"ATTR_TABLE","ATTR_NAME",""); int c=0; for(bool m=Q.sqlSuccess();m;m=Q.sqlStep()) c++; SYM_ASSERT(c==2,"one row per attribute"); sym_reach("done"); }
static void notable(){ openDb(); char*p=(char*)1; unsigned u=7; std::string s="old"; SYM_ASSERT(!sqlite3_single_lookup(db,"t","k","a","v",p)&&p==0&&!sqlite3_single_lookup(db,"t","k","a","v",u)&&u==7&&!sqlite_single_lookup(db,"t","k","a","v",s)&&s=="old"&&!sqlite3_exists(db,"t","k","a"),"nothing is found in a missing table"); SYM_ASSERT(env_sql_prepared==env_sql_finalized,"every statement is finalised"); sym_reach("done"); }
extern "C" void harness_main(void){ H(str) H(longkey) H(num) H(intkey) H(value) H(numvalue) H(number) H(rows) H(cond) H(attr) H(attrlong) H(attrkeep) H(notable) sym_fail("unknown case"); }
