/*SPEC
BOUNDS='stored texts of 0 to 4 arbitrary bytes (numbers also: an optional sign, 0x or 0 and up to 4 digits, and texts at the limits of long), read up to three times; decimals of up to 2 digits before and after the point; lists of up to 6 characters of digits, spaces, x and -, and strings of up to 5 arbitrary bytes; patterns of 0 to 2 arbitrary bytes against four stored keys; every accessor on an undefined key'
OUTSIDE='texts containing a NUL byte; exponents, infinities and hexadecimal floats; locale-dependent decimal points'
ASSUMES=['SQLite behaves as the model symx/models/env_sqlite.c (compared with the real library on every natively replayed path)']
for l in range(5): case('num.%d'%l,len=l,reach=['done'],time=500,f='num')
for b in (8,10,16): case('whole.%d'%b,base=b,reach=['done'],time=500,f='whole')
case('limits',reach=['done'],time=300)
case('flt',reach=['done'],time=500)
for l in range(7): case('vec.%d'%l,len=l,reach=['done'],time=500,f='vec')
for l in range(6): case('svec.%d'%l,len=l,reach=['done'],time=500,f='svec')
for l in range(3): case('find.%d'%l,len=l,reach=['done'],time=500,f='findp')
for l in range(3): case('similar.%d'%l,len=l,reach=['done'],time=500,f='similar')
case('undef',reach=['done'],time=300)
case('undeft',reach=['done'],time=300,conc=True)
*/
#include "symx.h"
#include "env.h"
#include "sqlite3util.h"
#include "Configuration.h"
#include "Threads.h"
#include <string.h>
#include <sstream>
ConfigurationTable gConfig;
static ConfigurationTable*T; static ConfigurationKeyMap schema(){ ConfigurationKeyMap m; const char*N[]={"GSM.Radio.ARFCN","GSM.Name","Z"}; for(int i=0;i<3;i++){ ConfigurationKey k(N[i],"dflt","",ConfigurationKey::CUSTOMER,ConfigurationKey::STRING,"",false,"d"); m[N[i]]=k; } return m; }
static void openT(){ T=new ConfigurationTable("c.db","test",schema()); }
static std::string symText(int n,const char*nm){ char b[8]; sym_bytes(b,n,nm); for(int i=0;i<n;i++) SYM_ASSUME(b[i]!=0); return std::string(b,n); }
static int same(const std::string&a,const std::string&b){ if(a.size()!=b.size()) return 0; int d=0; for(size_t i=0;i<a.size();i++) d|=a[i]^b[i]; return d==0; }
static int sp(char c){ return (c==' ')|((c>=9)&(c<=13)); } static int dig(char c){ return c>='0'&&c<='9'?c-'0':c>='a'&&c<='z'?c-'a'+10:c>='A'&&c<='Z'?c-'A'+10:99; }
// the number the longest numeric prefix of a (short) text denotes
static long ref(const std::string&t,bool*all){ size_t i=0,n=t.size(); while(i<n&&sp(t[i])) i++; bool neg=false; if(i<n&&(t[i]=='-'||t[i]=='+')){ neg=t[i]=='-'; i++; } int base=10; if(i<n&&t[i]=='0'){ base=8; if(i+2<n&&(t[i+1]=='x'||t[i+1]=='X')&&dig(t[i+2])<16){ base=16; i+=2; } } long v=0; size_t st=i; while(i<n&&dig(t[i])<base){ v=v*base+dig(t[i]); i++; } *all=i==n&&i>st; return neg?-v:v; }
static void num(){ openT(); std::string t=symText(sym_param("len",1),"text"); SYM_ASSERT(T->set("k",t),"set"); bool all; long w=ref(t,&all); SYM_ASSERT(T->getNum("k")==w,"the number the text denotes"); SYM_ASSERT(T->getNum("k")==w,"the same number again"); SYM_ASSERT(T->getBool("k")==(w!=0),"false exactly for zero"); T->purge(); SYM_ASSERT(T->getNum("k")==w&&T->getNum("k")==w,"the same number from the database"); SYM_ASSERT(same(T->getStr("k"),t),"the text"); sym_reach("done"); }
static void whole(){ openT(); int base=sym_param("base",10); std::string t; int sg=sym_choice(3,"sign"); if(sg) t+=sg==1?'-':'+'; int z=t.size(); if(base==16) t+=sym_choice(2,"X")?"0x":"0X"; if(base==8) t+="0"; int n=1+sym_choice(4,"digits"); unsigned v=0; for(int i=0;i<n;i++){ unsigned char d=sym<unsigned char>("d"); int k=base==16?sym_choice(3,"kind"):0; SYM_ASSUME(k==0?d<(base<10?base:10):d>=10&&d<16); if(base==10&&i==0&&n>1) SYM_ASSUME(d!=0); v=v*base+d; t+=(char)(k==0?'0'+d:(k==1?'a':'A')+d-10); } (void)z; SYM_ASSERT(T->set("k",t),"set"); long w=sg==1?-(long)v:(long)v; SYM_ASSERT(T->getNum("k")==w&&T->getBool("k")==(v!=0),"the number in its notation"); std::vector<unsigned> u=T->getVector("k"); SYM_ASSERT(u.size()==1&&u[0]==(unsigned)w,"the number in a list"); sym_reach("done"); }
static void limits(){ openT(); static const long N[]={9223372036854775807l,-9223372036854775807l-1,4294967296l,-1,2147483648l}; long v=N[sym_choice(5,"v")]; SYM_ASSERT(T->set("k",v),"set"); SYM_ASSERT(T->getNum("k")==v&&T->getBool("k"),"numbers at the limits"); SYM_ASSERT(T->set("k",std::string("0x7fffffffffffffff")),"set"); SYM_ASSERT(T->getNum("k")==9223372036854775807l,"hexadecimal at the limit"); SYM_ASSERT(T->set("k",std::string("4294967295 0xffffffff 037777777777")),"set"); std::vector<unsigned> u=T->getVector("k"); SYM_ASSERT(u.size()==3&&u[0]==~0u&&u[1]==~0u&&u[2]==~0u&&T->getVectorLength("k")==3,"list elements at the limit"); sym_reach("done"); }
static void flt(){ openT(); std::string t; bool neg=sym_choice(2,"neg"); if(neg) t+='-'; int a=sym_choice(12,"whole"); char b[8]; sprintf(b,"%d",a); t+=b; int k=sym_choice(3,"decimals"); double v=a; if(k){ int f=sym_choice(10,"tenths"); t+='.'; t+=(char)('0'+f); if(k==2){ int g=sym_choice(10,"hundredths"); t+=(char)('0'+g); v=(a*100+f*10+g)/100.0; } else v=(a*10+f)/10.0; } if(neg) v=-v; SYM_ASSERT(T->set("k",t),"set"); SYM_ASSERT(T->getFloat("k")==(float)v,"the decimal the text denotes"); SYM_ASSERT(T->getFloat("k")==(float)v,"again"); SYM_ASSERT(T->set("k",std::string("")),"set"); SYM_ASSERT(T->getFloat("k")==0&&T->getFloat("k")==0,"an empty text is zero"); SYM_ASSERT(T->set("k",t+"x"),"set"); SYM_ASSERT(T->getFloat("k")==(float)v&&T->getFloat("k")==(float)v,"text after the number is ignored"); sym_reach("done"); }
static void vec(){ openT(); int n=sym_param("len",3); std::string t; char b[8]; sym_bytes(b,n,"text"); for(int i=0;i<n;i++) SYM_ASSUME(((b[i]>='0')&(b[i]<='9'))|(b[i]==' ')|(b[i]=='x')|(b[i]=='-')); t=std::string(b,n); SYM_ASSERT(T->set("k",t),"set"); std::vector<unsigned> u=T->getVector("k"); size_t i=0,k=0; while(i<t.size()){ if(t[i]==' '){ i++; continue; } size_t e=i; while(e<t.size()&&t[e]!=' ') e++; bool all; long w=ref(t.substr(i,e-i),&all); SYM_ASSERT(k<u.size()&&u[k]==(unsigned)w,"the numbers in order"); k++; i=e; } SYM_ASSERT(k==u.size()&&T->getVectorLength("k")==k,"and no more"); sym_reach("done"); }
static void svec(){ openT(); std::string t=symText(sym_param("len",3),"text"); SYM_ASSERT(T->set("k",t),"set"); std::vector<std::string> u=T->getVectorOfStrings("k"); size_t i=0,k=0; while(i<t.size()){ if(t[i]==' '){ i++; continue; } size_t e=i; while(e<t.size()&&t[e]!=' ') e++; SYM_ASSERT(k<u.size()&&same(u[k],t.substr(i,e-i)),"the words in order"); k++; i=e; } SYM_ASSERT(k==u.size(),"and no more"); sym_reach("done"); }
static char lo(char c){ return (char)__sx_ite((c>='A')&(c<='Z'),c+32,c); }
static int contains(const char*k,const std::string&p,int nocase){ size_t n=strlen(k); int r=p.empty(); for(size_t i=0;i+p.size()<=n&&p.size();i++){ int m=1; for(size_t j=0;j<p.size();j++) m&=nocase?lo(k[i+j])==lo(p[j]):k[i+j]==p[j]; r|=m; } return r; }
static void findp(){ openT(); static const char*KS[]={"Ab","aBc","q'r","n"}; static const char*VS[]={"1","it's","","x y"}; SYM_ASSERT(T->set(KS[0],std::string(VS[0]))&&T->set(KS[1],std::string(VS[1]))&&T->set(KS[2],std::string(VS[2]))&&T->set(KS[3],std::string(VS[3])),"set"); SYM_ASSERT(env_sql_exec("c.db","INSERT INTO CONFIG (KEYSTRING) VALUES ('none')")==101,"exec"); std::string p=symText(sym_param("len",1),"pattern"); for(size_t i=0;i<p.size();i++) SYM_ASSUME((p[i]!='%')&(p[i]!='_')&((unsigned char)p[i]<128)); std::ostringstream os; T->find(p,os); std::string w; for(int i=0;i<4;i++) if(contains(KS[i],p,1)) w+=std::string(KS[i])+" "+(VS[i][0]?VS[i]:"(disabled)")+"\n"; if(contains("none",p,1)) w+="none (disabled)\n"; SYM_ASSERT(same(os.str(),w),"exactly the stored keys containing the pattern"); SYM_ASSERT(env_sql_prepared==env_sql_finalized,"every statement is finalised"); sym_reach("done"); }
static void similar(){ openT(); std::string p=symText(sym_param("len",1),"snippet"); ConfigurationKeyMap m=T->getSimilarKeys(p); static const char*N[]={"GSM.Radio.ARFCN","GSM.Name","Z","Control.NumSQLTries","Log.Alarms.Max","Log.File","Log.Level"}; unsigned c=0; for(int i=0;i<7;i++){ int in=contains(N[i],p,0); c+=in; SYM_ASSERT((int)m.count(N[i])==in,"exactly the known keys containing the snippet"); if(in) SYM_ASSERT(m[N[i]].getName()==N[i],"each with its own definition"); } SYM_ASSERT(m.size()==c,"and no other"); sym_reach("done"); }
template<class F> static bool throwsFor(F f){ try{ f(); }catch(ConfigurationTableKeyNotFound&e){ return e.key()=="no.such"; } return false; }
static void undef(){ openT(); std::string k="no.such"; for(int i=0;i<2;i++){ SYM_ASSERT(throwsFor([&]{ T->getStr(k); }),"getStr"); SYM_ASSERT(throwsFor([&]{ T->getNum(k); }),"getNum"); SYM_ASSERT(throwsFor([&]{ T->getBool(k); }),"getBool"); SYM_ASSERT(throwsFor([&]{ T->getFloat(k); }),"getFloat"); SYM_ASSERT(throwsFor([&]{ T->getVector(k); }),"getVector"); SYM_ASSERT(throwsFor([&]{ T->getVectorLength(k); }),"getVectorLength"); SYM_ASSERT(throwsFor([&]{ T->getVectorOfStrings(k); }),"getVectorOfStrings"); SYM_ASSERT(!T->defines(k),"defines"); if(i==0&&sym_choice(2,"purge")) T->purge(); } SYM_ASSERT(T->getStr("Z")=="dflt","others are unaffected"); sym_reach("done"); }
static int which; static void*worker(void*){ std::string k="no.such"; bool r=false; switch(which){ case 0: r=throwsFor([&]{ T->getStr(k); }); break; case 1: r=throwsFor([&]{ T->getNum(k); }); break; case 2: r=throwsFor([&]{ T->getFloat(k); }); break; case 3: r=throwsFor([&]{ T->getVector(k); }); break; case 4: r=throwsFor([&]{ T->getVectorOfStrings(k); }); break; default: r=!T->defines(k); } SYM_ASSERT(r,"reported as not found"); return 0; }
static void undeft(){ env_preempt=1; which=sym_choice(6,"accessor"); openT(); Thread a,b; a.start(worker,0); b.start(worker,0); a.join(); b.join(); SYM_ASSERT(T->getStr("Z")=="dflt","the table stays usable"); sym_reach("done"); }
extern "C" void harness_main(void){ H(num) H(whole) H(limits) H(flt) H(vec) H(svec) H(findp) H(similar) H(undef) H(undeft) sym_fail("unknown case"); }
