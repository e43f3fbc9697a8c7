/*SPEC
BOUNDS='for each of the 21 kinds a candidate of arbitrary bytes up to the lengths below, embedded in texts of the right shape: booleans 0-3 bytes; choices 0-3 bytes against a list with descriptions and 1-2 bytes against every list of 3 characters of {a b , |}; addresses: 0-4 arbitrary bytes in any of the four octet positions, and arbitrary texts of up to 4 bytes; CIDR, ports, host and port: 0-6 bytes after the delimiter, 0-3 before; lists of two or three addresses with 0-2 arbitrary bytes between and after; file paths 0-4 bytes; regular expressions 0-3 bytes; strings 0-4 bytes against 5 patterns; whole ranges 0-5 bytes against 6 ranges; decimal ranges every text of up to 3 characters of {0 1 2 5 7 9 - .} and every decimal of 1-2 digits before and after the point'
OUTSIDE='texts containing a NUL byte; equivalence classes and collating elements of regular expressions, back references; validating against a step (documented as not enforced); locales other than C'
ASSUMES=['the C library regular expressions and inet_pton behave as the models symx/models/env_regex.c and libc.c (compared with the real library on natively replayed paths)']
for l in range(4): case('boolean.%d'%l,len=l,reach=['done'],time=300,f='boolean')
for l in range(4): case('choice.%d'%l,len=l,reach=['done'],time=300,f='choice')
for l in range(3): case('choices.%d'%l,len=l,reach=['done'],time=400,f='choices')
for l in range(5): case('ip.%d'%l,len=l,reach=['done'],time=600,f='ip')
for l in range(5): case('iptext.%d'%l,len=l,reach=['done'],time=300,f='iptext')
for l in range(7): case('port.%d'%l,len=l,reach=['done'],time=400,f='port')
for l in range(5): case('cidr.%d'%l,len=l,reach=['done'],time=400,f='cidr')
for l in range(7): case('hostport.%d'%l,len=l,reach=['done'],time=500,f='hostport')
for l in range(7): case('ipport.%d'%l,len=l,reach=['done'],time=400,f='ipport')
for l in range(3): case('mip.%d'%l,len=l,reach=['done'],time=500,f='mip')
for l in range(5): case('path.%d'%l,len=l,reach=['done'],time=300,f='path')
for l in range(4): case('regex.%d'%l,len=l,reach=['done'],time=600,f='regex')
for l in range(5): case('text.%d'%l,len=l,reach=['done'],time=400,f='text')
for l in range(6): case('irange.%d'%l,len=l,reach=['done'],time=500,f='irange')
for l in range(4): case('frange.%d'%l,len=l,reach=['done'],time=500,f='frange')
for a,b in ((1,1),(1,2),(2,1)): case('fsym.%d.%d'%(a,b),whole=a,frac=b,reach=['done'],time=500,f='fsym')
case('big',reach=['done'],time=300)
case('unknown',reach=['done'],time=300)
case('number',reach=['done'],time=400)
*/
#include "symx.h"
#include "env.h"
#include "sqlite3util.h"
#include "Configuration.h"
#include "Threads.h"
#include <string.h>
#include <sstream>
ConfigurationTable gConfig;
typedef ConfigurationKey CK;
static ConfigurationTable*T; static size_t nkeys;
static void openT(CK::Type t,const std::string&valid){ ConfigurationKeyMap m; CK k("K","d","",CK::CUSTOMER,t,valid,false,""); m["K"]=k; CK b("B","1","",CK::CUSTOMER,CK::BOOLEAN,"",true,""); m["B"]=b; T=new ConfigurationTable("c.db","test",m); nkeys=T->mSchema.size(); }
static std::string sb(int n,const char*nm){ char b[8]; sym_bytes(b,n,nm); for(int i=0;i<n;i++) SYM_ASSUME(b[i]!=0); return std::string(b,n); }
static std::string len(){ return sb(sym_param("len",1),"text"); }
static void check(const std::string&v,bool ok){ bool r=T->isValidValue("K",v); if(ok) sym_reach("accepted"); SYM_ASSERT(r==ok,"accepted exactly when it has the documented form"); SYM_ASSERT(T->isValidValue("K",v)==ok,"asking again gives the same answer"); SYM_ASSERT(T->mSchema.size()==nkeys&&!T->defines("no.such")&&T->keyDefinedInSchema("K"),"validating changes nothing"); sym_reach("done"); }
// an optional kind also accepts the empty text
static void both(CK::Type plain,CK::Type opt,const char*valid,const std::string&v,bool ok){ int o=sym_choice(2,"optional"); openT(o?opt:plain,valid); check(v,ok||(o&&v.empty())); }
static int digs(const std::string&s,size_t a,size_t b){ if(a==b) return 0; int r=1; for(size_t i=a;i<b;i++) r&=(s[i]>='0')&(s[i]<='9'); return r; }
static long num(const std::string&s,size_t a,size_t b){ long v=0; for(size_t i=a;i<b;i++) v=v*10+(s[i]-'0'); return v; }
static int ipOk(const std::string&s,size_t a,size_t b){ int parts=0; for(;;){ size_t e=a; while(e<b&&s[e]!='.') e++; size_t n=e-a; if(n<1||n>3) return 0; if(!digs(s,a,e)) return 0; if(n>1&&s[a]=='0') return 0; if(num(s,a,e)>255) return 0; parts++; if(e==b) break; a=e+1; } return parts==4; }
static int portOk(const std::string&s,size_t a,size_t b){ if(!digs(s,a,b)) return 0; while(a<b&&s[a]=='0') a++; if(b-a>5) return 0; long v=num(s,a,b); return v>=1&&v<=65535; }
static void boolean(){ openT(CK::BOOLEAN,""); std::string v=len(); check(v,v.size()==1&&(v[0]=='0'||v[0]=='1')); }
static void choice(){ int o=sym_choice(2,"optional"); openT(o?CK::CHOICE_OPT:CK::CHOICE,"ab|first,c,1|x y,def"); std::string v=len(); check(v,(o&&v.empty())||v=="ab"||v=="c"||v=="1"||v=="def"); }
static void choices(){ char L[4]; for(int i=0;i<3;i++) L[i]="ab,|"[sym_choice(4,"list")]; L[3]=0; openT(CK::CHOICE,L); std::string v=len(); bool ok=false; std::string item; bool desc=false; for(int i=0;i<=3;i++){ if(i==3||L[i]==','){ if(item.size()==v.size()&&!memcmp(item.data(),v.data(),v.size())) ok=true; item=""; desc=false; } else if(L[i]=='|') desc=true; else if(!desc) item+=L[i]; } check(v,ok); }
static void ip(){ int at=sym_choice(4,"octet"); std::string x=len(),v; static const char*O[]={"1","20","255","0"}; for(int i=0;i<4;i++){ if(i) v+='.'; v+= i==at?x:std::string(O[i]); } both(CK::IPADDRESS,CK::IPADDRESS_OPT,"",v,ipOk(v,0,v.size())); }
static void iptext(){ std::string v=len(); both(CK::IPADDRESS,CK::IPADDRESS_OPT,"",v,false); }
static void port(){ std::string v=len(); both(CK::PORT,CK::PORT_OPT,"",v,portOk(v,0,v.size())); }
static void cidr(){ std::string v; int sh=sym_choice(3,"shape"); std::string x=len(); if(sh==0) v="10.0.0.0/"+x; else if(sh==1) v="10.0.0."+x+"/8"; else v=x; size_t d=v.find('/'); bool ok=d!=std::string::npos&&ipOk(v,0,d)&&digs(v,d+1,v.size()); if(ok){ size_t a=d+1; while(a<v.size()&&v[a]=='0') a++; ok=v.size()-a<=2&&num(v,a,v.size())<=32; } both(CK::CIDR,CK::CIDR_OPT,"",v,ok); }
static bool hostOk(const std::string&s,size_t e){ if(!e) return false; for(size_t i=0;i<e;i++){ char c=s[i]; if(!(((c>='a')&(c<='z'))|((c>='A')&(c<='Z'))|((c>='0')&(c<='9'))|(c=='_')|(c=='.')|(c=='-'))) return false; } return true; }
static void hostport(){ std::string v; int n=sym_param("len",1); int sh=sym_choice(n<4?4:1,"shape"); std::string x=len(); switch(sh){ case 0: v="a-b.c:"+x; break; case 1: v=x+":80"; break; case 2: v="a"+x+":1"; break; default: v=x; } size_t d=v.find(':'); both(CK::HOSTANDPORT,CK::HOSTANDPORT_OPT,"",v,d!=std::string::npos&&hostOk(v,d)&&portOk(v,d+1,v.size())); }
static void ipport(){ std::string v; int n=sym_param("len",1); int sh=sym_choice(n<4?3:1,"shape"); std::string x=len(); switch(sh){ case 0: v="127.0.0.1:"+x; break; case 1: v="127.0.0."+x+":5060"; break; default: v="1.2.3.4"+x; } size_t d=v.find(':'); openT(CK::IPANDPORT,""); check(v,d!=std::string::npos&&ipOk(v,0,d)&&portOk(v,d+1,v.size())); }
static void mip(){ int n=sym_param("len",1); std::string x=sb(n,"between"),v; int sh=sym_choice(5,"shape"); switch(sh){ case 0: v="1.2.3.4"+x+"5.6.7.8"; break; case 1: v="1.2.3.4"+x; break; case 2: v=x+"1.2.3.4:5 6.7.8.9"; break; case 3: v="1.2.3.4 5.6.7.8:7"+x+" 9.9.9.9"; break; default: v=x; } bool ok=true; size_t a=0; for(;;){ size_t e=a; while(e<v.size()&&v[e]!=' ') e++; size_t c=a; while(c<e&&v[c]!=':') c++; if(!ipOk(v,a,c)) ok=false; else if(c<e&&!portOk(v,c+1,e)) ok=false; if(e==v.size()) break; a=e+1; } both(CK::MIPADDRESS,CK::MIPADDRESS_OPT,"",v,ok); }
static void path(){ std::string v=len(); bool ok=!v.empty(); for(char c:v) ok=ok&&(((c>='a')&(c<='z'))|((c>='A')&(c<='Z'))|((c>='0')&(c<='9'))|(c=='_')|(c=='.')|(c=='-')|(c=='/')); both(CK::FILEPATH,CK::FILEPATH_OPT,"",v,ok); }
// which short expressions are well formed: no unmatched ( or [, no trailing backslash, repetition only after something, no bad range
struct P{ const std::string&s; size_t i; bool bad; P(const std::string&t):s(t),i(0),bad(false){}
	void alt(int d){ for(;;){ bool can=false; while(i<s.size()&&!bad){ char c=s[i]; if(c=='|') break; if(c==')'&&d) return; if(c=='('){ i++; alt(d+1); if(bad) return; if(i>=s.size()){ bad=true; return; } i++; can=true; } else if(c=='['){ i++; if(i<s.size()&&s[i]=='^') i++; bool first=true,closed=false; while(i<s.size()){ if(s[i]==']'&&!first){ closed=true; i++; break; } first=false; if(i+2<s.size()&&s[i+1]=='-'&&s[i+2]!=']'){ if((unsigned char)s[i+2]<(unsigned char)s[i]){ bad=true; return; } i+=3; } else i++; } if(!closed){ bad=true; return; } can=true; } else if(c=='\\'){ if(i+1>=s.size()){ bad=true; return; } i+=2; can=true; } else i++; } (void)can; if(bad||i>=s.size()) return; i++; } } };
static void regex(){ std::string v=len(); for(size_t i=0;i<v.size();i++){ char c=v[i]; SYM_ASSUME(c!='{'&&c!='*'&&c!='+'&&c!='?'&&c>0); if(i) SYM_ASSUME(!(v[i-1]=='['&&(c==':'||c=='.'||c=='='))); if(i) SYM_ASSUME(!(v[i-1]=='\\'&&c>='1'&&c<='9')); } P p(v); p.alt(0); both(CK::REGEX,CK::REGEX_OPT,"",v,!p.bad); }
static int in(char c,char a,char b){ return (c>=a)&(c<=b); }
static void text(){ int w=sym_choice(5,"pattern"); std::string v=len(); static const char*R[]={"^[a-z]{2,3}$","^([1-9]|1[0-9])$","b|cd","^[0-9*#+]+$","^[^ ]*x?$"}; bool ok=true; size_t n=v.size(); switch(w){ case 0: ok=n==2||n==3; for(char c:v) ok=ok&&in(c,'a','z'); break; case 1: ok=(n==1&&in(v[0],'1','9'))||(n==2&&v[0]=='1'&&in(v[1],'0','9')); break; case 2: ok=false; for(size_t i=0;i<n;i++) if(v[i]=='b'||(i+1<n&&v[i]=='c'&&v[i+1]=='d')) ok=true; break; case 3: ok=n>0; for(char c:v) ok=ok&&(in(c,'0','9')|(c=='*')|(c=='#')|(c=='+')); break; default: for(char c:v) ok=ok&&c!=' '; } if(w==4) for(char c:v) SYM_ASSUME(c>0); both(CK::STRING,CK::STRING_OPT,R[w],v,ok); }
static void irange(){ static const struct{ const char*s; long lo,hi; } R[]={{"0:7",0,7},{"10:200",10,200},{"-30:-5",-30,-5},{"-1:1(1)",-1,1},{"1:1000(5)",1,1000},{"0:65535",0,65535}}; int w=sym_choice(6,"range"); openT(CK::VALRANGE,R[w].s); std::string v=len(); bool neg=!v.empty()&&v[0]=='-'; bool ok=digs(v,neg,v.size()); if(ok){ long x=num(v,neg,v.size()); if(neg) x=-x; ok=x>=R[w].lo&&x<=R[w].hi; } check(v,ok); }
static void frange(){ static const struct{ const char*s; int lo,hi; } R[]={{"0.0:1.0",0,1000},{"-1.5:2.25(0.25)",-1500,2250},{"0:1.0",0,1000},{"2.5:20",2500,20000}}; int w=sym_choice(4,"range"); openT(CK::VALRANGE,R[w].s); int n=sym_param("len",1); std::string v; static const char A[]="012579-."; int dot=-1; bool form=true; int ip=0,fr=0,fd=0,nd=0; bool neg=false; for(int i=0;i<n;i++){ char c=A[sym_choice(n>3?(n>4?4:6):8,"ch")]; if(n>3&&i==sym_param("len",1)-3) c='.'; if(n>3&&i==0&&sym_choice(2,"minus")) c='-'; v+=c; if(c=='-'){ if(i) form=false; else neg=true; } else if(c=='.'){ if(dot>=0) form=false; dot=i; } else { nd++; if(dot<0) ip=ip*10+c-'0'; else { fr=fr*10+c-'0'; fd++; } } } if(!nd) form=false; while(fd<5){ fr*=10; fd++; } long x=ip*100000l+fr; if(neg) x=-x; check(v,form&&x>=R[w].lo*100l&&x<=R[w].hi*100l); }
static void fsym(){ static const struct{ const char*s; int lo,hi; } R[]={{"0.0:1.0",0,100},{"-1.5:2.25(0.25)",-150,225},{"2.5:20",250,2000}}; int w=sym_choice(3,"range"); openT(CK::VALRANGE,R[w].s); int a=sym_param("whole",1),b=sym_param("frac",2); bool neg=sym_choice(2,"minus"); std::string v; if(neg) v="-"; unsigned x=0; char d[5]; sym_bytes(d,a+b,"digits"); for(int i=0;i<a+b;i++){ SYM_ASSUME(d[i]>='0'&&d[i]<='9'); if(i==a) v+='.'; v+=d[i]; x=x*10+(d[i]-'0'); } int y=(int)x*(b==1?10:1); if(neg) y=-y; check(v,(y>=R[w].lo)&(y<=R[w].hi)); }
static void big(){ static const struct{ int t; const char*valid,*v; bool ok; } B[]={{0,"0:2147483647","2147483647",true},{0,"0:2147483647","2147483648",false},{0,"0:2147483647","99999999999999999999",false},{0,"-5:5","4294967296",false},{0,"-5:5","18446744073709551616",false},{1,"","65536",false},{1,"","4294967297",false},{1,"","18446744073709551617",false},{1,"","00080",true},{2,"","10.0.0.0/4294967304",false},{2,"","10.0.0.0/032",true},{3,"","h:4294967376",false},{3,"","1.2.3.4:65535",true},{3,"","1.2.3.4:65536",false},{3,"","a:b:1",false}}; int w=sym_choice(15,"which"); static const CK::Type K[]={CK::VALRANGE,CK::PORT,CK::CIDR,CK::HOSTANDPORT}; openT(K[B[w].t],B[w].valid); check(B[w].v,B[w].ok); }
static void unknown(){ openT(CK::BOOLEAN,""); std::string k=sb(sym_choice(4,"keylen"),"key"); std::string v=sym_choice(2,"v")?"1":"x"; bool known=k.size()==1&&(k[0]=='K'||k[0]=='B'); SYM_ASSERT(T->isValidValue(k,v)==(known&&v=="1"),"an unknown key has no valid values"); SYM_ASSERT(T->keyDefinedInSchema(k)==known,"an unknown key is told apart"); SYM_ASSERT(T->isStatic(k)==(k.size()==1&&k[0]=='B'),"static exactly when declared so"); SYM_ASSERT(T->mSchema.size()==nkeys&&T->keyDefinedInSchema(k)==known,"validating changes nothing"); sym_reach("done"); }
static void number(){ int v=(int)sym_range(-120,70000,"value"); int t=sym_choice(3,"kind"); static const CK::Type K[]={CK::PORT,CK::VALRANGE,CK::BOOLEAN}; openT(K[t],"-7:1234"); bool ok=t==0?v>=1&&v<=65535:t==1?v>=-7&&v<=1234:v==0||v==1; SYM_ASSERT(T->isValidValue("K",v)==ok,"numbers are judged by their text"); sym_reach("done"); }
extern "C" void harness_main(void){ H(boolean) H(choice) H(choices) H(ip) H(iptext) H(port) H(cidr) H(hostport) H(ipport) H(mip) H(path) H(regex) H(text) H(irange) H(frange) H(fsym) H(big) H(unknown) H(number) sym_fail("unknown case"); }
