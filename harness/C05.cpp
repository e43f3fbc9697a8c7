/*SPEC
BOUNDS='every text of up to 9 characters whose bytes are: arbitrary bytes (texts of up to 4), or letters, spaces, equals signs and one arbitrary byte (texts of 5 to 9); one pair of up to 5 arbitrary bytes; looked up with every key of up to 2 arbitrary bytes; numbers of up to 5 arbitrary bytes, and texts at the limits of long; a second text of up to 3 bytes added later; keys and values longer than the small-string size'
OUTSIDE='texts containing a NUL byte; numeric access by getNumOrBust to a text that is not a number (documented as not verified; it yields the numeric prefix)'
for l in range(10): case('items.%d'%l,len=l,reach=['done']+(['found'] if l>0 else []),time=700,f='items')
for l in range(6): case('item.%d'%l,len=l,reach=['done'],time=500,f='item')
for l in range(6): case('num.%d'%l,len=l,reach=['done'],time=500,f='num')
for l in range(4): case('later.%d'%l,len=l,reach=['done'],time=600,f='later')
case('limits',reach=['done'],time=200)
case('longer',reach=['done'],time=300)
*/
#include "symx.h"
#include "env.h"
#include "sqlite3util.h"
#include "Configuration.h"
#include <string.h>
#include <stdlib.h>
#include <vector>
ConfigurationTable gConfig;
static void sb(char*b,int n,const char*nm,int mode){ sym_bytes(b,n,nm); for(int i=0;i<n;i++){ SYM_ASSUME(b[i]!=0); if(mode&&i!=1) SYM_ASSUME((b[i]=='=')|(b[i]==' ')|(b[i]=='a')|(b[i]=='b')); } b[n]=0; }
// reference: the value the last pair with that key has, or none.  Pairs are separated by single spaces; a part without '=' is no pair; the value is everything after the first '='.
static bool ref(const char*t,int n,const char*k,int kn,std::string&v,bool one){ bool found=false; int a=0; for(;;){ int e=a; while(e<n&&(one||t[e]!=' ')) e++; int q=a; while(q<e&&t[q]!='=') q++; if(q<e&&q-a==kn){ int d=0; for(int i=0;i<kn;i++) d|=t[a+i]^k[i]; if(!d){ found=true; v.assign(t+q+1,e-q-1); } } if(e>=n) return found; a=e+1; } }
static int same(const char*a,const std::string&b){ if(strlen(a)!=b.size()) return 0; int d=0; for(size_t i=0;i<b.size();i++) d|=a[i]^b[i]; return d==0; }
static void look(const SimpleKeyValue&m,const char*k,bool want,const std::string&v){ const char*g=m.get(k); SYM_ASSERT((g!=0)==want,"found exactly when a pair has that key"); if(want){ sym_reach("found"); SYM_ASSERT(same(g,v),"the value of the pair"); SYM_ASSERT(same(m.getStrOrBust(k).c_str(),v),"the same value as a string"); } else { bool t=false; try{ m.getStrOrBust(k); }catch(SimpleKeyValueException&){ t=true; } SYM_ASSERT(t,"a missing key is reported"); t=false; try{ m.getNumOrBust(k); }catch(SimpleKeyValueException&){ t=true; } SYM_ASSERT(t,"a missing number is reported"); bool valid=true; m.getNum(k,valid); SYM_ASSERT(!valid,"a missing number is not valid"); } }
static char*exact(const char*t,int n){ char*p=(char*)malloc(n+1); memcpy(p,t,n+1); return p; } // a block of exactly the text, so that a read past it is found
static void items(){ int n=sym_param("len",1); char t[16],k[4]; sb(t,n,"text",n>4); int kn=sym_choice(3,"keylen"); sb(k,kn,"key",0); long b0=sym_live_blocks(); { SimpleKeyValue m; char*p=exact(t,n); m.addItems(p); SYM_ASSERT(!memcmp(p,t,n+1),"the text is left alone"); free(p); std::string v; bool w=ref(t,n,k,kn,v,false); look(m,k,w,v); } SYM_ASSERT(sym_live_blocks()==b0,"no memory is lost"); sym_reach("done"); }
static void item(){ int n=sym_param("len",1); char t[8],k[4]; sb(t,n,"text",0); int kn=sym_choice(3,"keylen"); sb(k,kn,"key",0); long b0=sym_live_blocks(); { SimpleKeyValue m; char*p=exact(t,n); m.addItem(p); SYM_ASSERT(!memcmp(p,t,n+1),"the text is left alone"); free(p); std::string v; bool w=ref(t,n,k,kn,v,true); look(m,k,w,v); } SYM_ASSERT(sym_live_blocks()==b0,"no memory is lost"); sym_reach("done"); }
static void num(){ int n=sym_param("len",1); char t[8]; sb(t,n,"number",0); std::string s="n="; s+=t; SimpleKeyValue m; m.addItem(s.c_str()); bool valid=sym_choice(2,"before"); long v=m.getNum("n",valid); int i=0; while(i<n&&((t[i]==' ')|((t[i]>=9)&(t[i]<=13)))) i++; bool neg=false; if(i<n&&(t[i]=='-'||t[i]=='+')){ neg=t[i]=='-'; i++; } int a=i; long w=0; while(i<n&&t[i]>='0'&&t[i]<='9'){ w=w*10+(t[i]-'0'); i++; } if(neg) w=-w; bool ok=i>a&&i==n; SYM_ASSERT(valid==ok,"valid exactly when the text is a number"); if(ok){ sym_reach("number"); SYM_ASSERT(v==w,"the number"); SYM_ASSERT(m.getNumOrBust("n")==w,"the number again"); } sym_reach("done"); }
static void later(){ int n=sym_param("len",1); char t[8],k[4]; sb(t,n,"text",0); int kn=sym_choice(3,"keylen"); sb(k,kn,"key",0); SimpleKeyValue m; m.addItems("a=1 b= c d=x=y"); m.addItems(t); std::string v; bool w=ref(t,n,k,kn,v,false); if(!w) w=ref("a=1 b= c d=x=y",14,k,kn,v,false); look(m,k,w,v); sym_reach("done"); }
static void limits(){ static const struct{ const char*t; long v; bool ok; } L[]={{"9223372036854775807",9223372036854775807l,true},{"-9223372036854775808",-9223372036854775807l-1,true},{"2147483648",2147483648l,true},{"4294967296",4294967296l,true},{"0",0,true},{"-0",0,true},{"007",7,true},{"0x10",0,false},{"1.5",1,false},{"1 ",1,false}}; int i=sym_choice(10,"which"); std::string s="key="; s+=L[i].t; SimpleKeyValue m; m.addItem(s.c_str()); bool valid=!L[i].ok; long v=m.getNum("key",valid); SYM_ASSERT(valid==L[i].ok,"valid exactly for numbers"); if(valid) SYM_ASSERT(v==L[i].v&&m.getNumOrBust("key")==v,"whole range of numbers"); valid=true; m.getNum("kez",valid); SYM_ASSERT(!valid,"missing"); sym_reach("done"); }
static void longer(){ std::string k(20,'k'),v(30,'v'); char c=sym<char>("byte"); SYM_ASSUME(c!=0&&c!=' '&&c!='='); int at=sym_choice(50,"at"); if(at<20) k[at]=c; else v[at-20]=c; std::string t=std::string("a=1 ")+k+"="+v+" z=2"; long b0=sym_live_blocks(); { SimpleKeyValue m; m.addItems(t.c_str()); const char*g=m.get(k.c_str()); SYM_ASSERT(g&&same(g,v),"the value of the pair"); SYM_ASSERT(m.getNumOrBust("a")==1&&m.getNumOrBust("z")==2,"its neighbours"); } SYM_ASSERT(sym_live_blocks()==b0,"no memory is lost"); sym_reach("done"); }
extern "C" void harness_main(void){ H(items) H(item) H(num) H(later) H(limits) H(longer) sym_fail("unknown case"); }
