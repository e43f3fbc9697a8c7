/*SPEC
BOUNDS='every result length 0..5010 and 6000 with arbitrary characters at the start, middle and end of the text; every overload of format with arbitrary integers of up to 8 bits, and those of one number and texts with integers of 64 bits and floating point numbers; stream output of every length 0..330'
OUTSIDE='floating point conversions with arbitrary values (printf itself is the oracle and is trusted)'
for k in range(8): case('len.%d'%k,lo=k*40,hi=min(k*40+39,310),reach=['done'],time=400)
case('len.e',lo=6000,hi=6000,reach=['done'],time=400)
for k in range(310,5010,50): case('len.t%d'%k,lo=k,hi=min(k+49,5010),reach=['done'],time=400)
for k in range(4): case('os.%d'%k,lo=[0,150,280,305][k],hi=[149,279,304,330][k],reach=['done'],time=400)
case('mixed',reach=['done'],time=400)
case('osmixed',reach=['done'],time=400)
case('types',reach=['done'],time=400)
*/
#include "symx.h"
#include "Utils.h"
#include "Configuration.h"
ConfigurationTable gConfig;
#include <string.h>
#include <stdlib.h>
#include <sstream>
using namespace Utils;
static char nz(const char*nm){ char c=sym<char>(nm); SYM_ASSUME(c!=0); return c; }
static unsigned lenOf(){ unsigned lo=sym_param("lo",0),hi=sym_param("hi",10); return lo+sym_choice(hi-lo+1,"length"); }
static char* text(unsigned n){ char*b=(char*)malloc(n+1); for(unsigned i=0;i<n;i++) b[i]='a'+i%23; if(n){ b[0]=nz("first"); b[n/2]=nz("middle"); b[n-1]=nz("last"); if(n>198) b[198]=nz("c198"); if(n>1) b[n-2]=nz("butlast"); } b[n]=0; return b; }
static bool same(const std::string&g,const char*w,unsigned n){ if(g.size()!=n) return false; bool ok=true; for(unsigned i=0;i<n;i++) ok&=g[i]==w[i]; return ok; }
static void len(){ unsigned n=lenOf(); char*t=text(n); unsigned e=n>5000?5000:n;
  switch(sym_choice(4,"which")){ case 3: { if(n<4){ break; } char c=t[n-3]; t[n-3]=0; std::string w(t); w+=c; w+="78"; SYM_ASSERT(same(format("%s%c%d%d",(const char*)t,c,7,8),w.c_str(),e),"formatted text differs from what printf produces (several arguments)"); break; } case 0: SYM_ASSERT(same(format("%s",(const char*)t),t,e),"formatted text differs from what printf produces"); break;
    case 1: SYM_ASSERT(same(format1("%s",t),t,e),"formatted text differs from what printf produces (format1)"); break;
    default: { if(n<3){ break; } std::string s(t+1,n-3); char*w=(char*)malloc(n+1); w[0]='<'; memcpy(w+1,t+1,n-3); w[n-2]='>'; w[n-1]='7'; w[n]=0; SYM_ASSERT(same(format("<%s>%d",s,7),w,e),"formatted text differs from what printf produces (string overload)"); free(w); } }
  free(t); sym_reach("done"); }
static void os(){ unsigned n=lenOf(); char*t=text(n); std::ostringstream o; std::ostream&r=osprintf(o,"%s",t); SYM_ASSERT(&r==&o,"osprintf returns its stream"); std::string g=o.str();
  if(n<300) SYM_ASSERT(same(g,t,n),"text that fits was not written as printf produces it");
  else { bool ok=g.size()>=3&&g.size()<=299; SYM_ASSERT(ok,"truncated text is longer than the buffer"); unsigned k=g.size()-3; for(unsigned i=0;i<k;i++) ok&=g[i]==t[i]; ok&=(g[k]=='.')&(g[k+1]=='.')&(g[k+2]=='.'); SYM_ASSERT(ok,"truncated text is a prefix ending in an ellipsis"); SYM_ASSERT(g.size()==299,"truncated text uses the buffer"); }
  free(t); sym_reach("done"); }
static std::string str(unsigned n,const char*nm){ char b[8]; for(unsigned i=0;i<n;i++) b[i]=nz(nm); return std::string(b,n); }
static void types(){ static const long L[]={0,-1,2147483647,2147483648L,-2147483649L,4294967295L,5000000000L,(long)(((unsigned long)1<<63)-1)}; long l=L[sym_choice(8,"l")]; unsigned long ul=(unsigned long)l; unsigned u=(unsigned)l; double d=L[sym_choice(8,"d")]*0.25; std::string a=std::string(sym_choice(2,"n")*3,'x'),b="yz",g; char w[200]; const char*A=a.c_str(),*B=b.c_str();
  switch(sym_choice(14,"form")){
  case 0: g=format("%s=%ld",a,l); snprintf(w,200,"%s=%ld",A,l); break;
  case 1: g=format("%ld=%s",l,a); snprintf(w,200,"%ld=%s",l,A); break;
  case 2: g=format("%s%s=%ld",a,b,l); snprintf(w,200,"%s%s=%ld",A,B,l); break;
  case 3: g=format("%s=%lu",a,ul); snprintf(w,200,"%s=%lu",A,ul); break;
  case 4: g=format("%lx=%s",ul,a); snprintf(w,200,"%lx=%s",ul,A); break;
  case 5: g=format("%s=%u",a,u); snprintf(w,200,"%s=%u",A,u); break;
  case 6: g=format("%u=%s",u,a); snprintf(w,200,"%u=%s",u,A); break;
  case 7: g=format("%s=%lld",a,(long long)l); snprintf(w,200,"%s=%lld",A,(long long)l); break;
  case 8: g=format("%llu=%s",(unsigned long long)ul,a); snprintf(w,200,"%llu=%s",(unsigned long long)ul,A); break;
  case 9: g=format("%s=%.2f",a,d); snprintf(w,200,"%s=%.2f",A,d); break;
  case 10: g=format("%.2f=%s",d,a); snprintf(w,200,"%.2f=%s",d,A); break;
  case 11: g=format("%s%s=%.2f",a,b,d); snprintf(w,200,"%s%s=%.2f",A,B,d); break;
  case 12: g=format("%s=%ld",A,l); snprintf(w,200,"%s=%ld",A,l); break;
  default: g=format("%ld=%s",l,A); snprintf(w,200,"%ld=%s",l,A); }
  SYM_ASSERT(same(g,w,strlen(w)),"formatted text differs from what printf produces (number type)"); sym_reach("done"); }
static void mixed(){ unsigned k=sym_choice(4,"size"); std::string a=str(k,"a"),b=str((k+1)%4,"b"),c=str(2,"c"),d=str(1,"d"); int i=sym_choice(3,"i"),I[]={-2147483647-1,0,1234567}; i=I[i]; int j=(int)(int8_t)sym_concretize(sym_bits(8,"j")&0x8f); char w[200]; const char*A=a.c_str(),*B=b.c_str(),*C=c.c_str(),*D=d.c_str(); std::string g;
  switch(sym_choice(12,"form")){
  case 0: g=format("[%s]",a); snprintf(w,200,"[%s]",A); break;
  case 1: g=format("[%s|%s]",a,b); snprintf(w,200,"[%s|%s]",A,B); break;
  case 2: g=format("%s%s%5s",a,b,c); snprintf(w,200,"%s%s%5s",A,B,C); break;
  case 3: g=format("%s %s %-4s %s",a,b,c,d); snprintf(w,200,"%s %s %-4s %s",A,B,C,D); break;
  case 4: g=format("%s=%d",a,i); snprintf(w,200,"%s=%d",A,i); break;
  case 5: g=format("%05d:%s",i,a); snprintf(w,200,"%05d:%s",i,A); break;
  case 6: g=format("%s,%s,%x",a,b,i); snprintf(w,200,"%s,%s,%x",A,B,i); break;
  case 7: g=format("%s,%s,%d/%u",a,b,i,j); snprintf(w,200,"%s,%s,%d/%u",A,B,i,j); break;
  case 8: g=format("%c%d%%%o%X %p",'z',i,j,j,(void*)0); snprintf(w,200,"%c%d%%%o%X %p",'z',i,j,j,(void*)0); break;
  case 9: g=format("%g %.3f %e",1.5,-2.0/3,1e10); snprintf(w,200,"%g %.3f %e",1.5,-2.0/3,1e10); break;
  case 10: g=format1("%ld %lld %zu %hd",(long)i,(long long)j*100000000000LL,(size_t)7,(short)j); snprintf(w,200,"%ld %lld %zu %hd",(long)i,(long long)j*100000000000LL,(size_t)7,(short)j); break;
  default: g=format1("plain"); snprintf(w,200,"plain"); }
  SYM_ASSERT(same(g,w,strlen(w)),"formatted text differs from what printf produces"); sym_reach("done"); }
static void osmixed(){ std::string a=str(sym_choice(4,"size"),"a"); int j=(int)(int8_t)sym_concretize(sym_bits(8,"j")&0x8f); char w[200]; snprintf(w,200,"<%s|%d|%04x>",a.c_str(),j,j); std::ostringstream o; o<<"pre "; osprintf(o,"<%s|%d|%04x>",a.c_str(),j,j)<<" post"; std::string e=std::string("pre ")+w+" post"; SYM_ASSERT(same(o.str(),e.data(),e.size()),"stream output differs from what printf produces"); sym_reach("done"); }
extern "C" void harness_main(void){ H(len) H(os) H(mixed) H(osmixed) H(types) sym_fail("unknown case"); }
