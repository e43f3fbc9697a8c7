/*SPEC
BOUNDS='every pair of positive numbers up to 31 (thorough: 63), and a selection up to 2^31-1; scanning every text of up to 5 bytes for one to four words; every time of day of every second in 1970..2100 with arbitrary tenths for widths 0..30; ISO text of every time in 1970..2037 (per year, arbitrary second); the clock in seconds at 16 fractions of 7 different seconds; 56 printed times'
OUTSIDE='time zones other than UTC; sleeps of arbitrary length (16 durations from below zero to 100000 s are tried); a sleep ended early by a signal'
case('div',m=31,reach=['done'],time=500)
case('div.t',m=63,reach=['done'],time=900,tier='thorough')
case('big',reach=['done'],time=300)
case('scan',n=5,reach=['done'],time=600)
case('words',reach=['done'],time=300)
case('stamp',reach=['done'],time=500)
case('iso',reach=['done'],time=500)
case('clock',reach=['done'],time=300)
case('printed',reach=['done'],time=300)
case('sleeps',reach=['done'],time=300)
*/
#include "symx.h"
#include "env.h"
#include "Utils.h"
#include "Timeval.h"
#include "Configuration.h"
ConfigurationTable gConfig;
#include <string.h>
#include <time.h>
#include <sstream>
using namespace Utils;
static int nw(const char*t,int k,const char*b[],int l[]){ int n=0; const char*p=t; for(;;){ while(isspace((unsigned char)*p)) p++; if(!*p||n>=k) break; b[n]=p; while(*p&&!isspace((unsigned char)*p)) p++; l[n]=p-b[n]; n++; } return n; }
static int isGcd(int x,int y,int g){ if(g<1||x%g||y%g) return 0; return 1; }
static void div(){ int m=sym_param("m",31); int x=sym_range(1,m,"x"); int y=sym_range(1,m,"y"); int d=sym_range(1,m,"divisor"); int g=gcd(x,y); SYM_ASSERT(g>=1,"the divisor is positive"); SYM_ASSERT((x%g==0)&(y%g==0),"the greatest common divisor divides both"); SYM_ASSUME((x%d==0)&(y%d==0)); SYM_ASSERT(g%d==0,"every common divisor divides it"); sym_reach("done"); }
static void big(){ static const int V[]={1,2,6,12,270,271,1000000,999983,2147483647,2147483646,1073741824,65536}; int x=V[sym_choice(12,"x")],y=V[sym_choice(12,"y")]; int a=x,b=y; while(b){ int t=a%b; a=b; b=t; } SYM_ASSERT(gcd(x,y)==a,"greatest common divisor"); sym_reach("done"); }
static void check(const char*t,int k){ std::string s[4]; const char*u[4]={"u0","u1","u2","u3"}; for(int i=0;i<4;i++) s[i]=u[i]; int r=0; switch(k){ case 1: r=myscanf(t,"%s",&s[0]); break; case 2: r=myscanf(t,"%s %s",&s[0],&s[1]); break; case 3: r=myscanf(t,"%s %s %s",&s[0],&s[1],&s[2]); break; default: r=myscanf(t,"%s %s %s %s",&s[0],&s[1],&s[2],&s[3]); }
  const char*b[5]; int l[5]; int n=nw(t,k,b,l); SYM_ASSERT(r==n||(n==0&&r==-1),"number of words scanned");
  for(int i=0;i<4;i++) if(i<n){ bool ok=s[i].size()==(size_t)l[i]; for(int j=0;ok&&j<l[i];j++) ok&=s[i][j]==b[i][j]; SYM_ASSERT(ok,"scanned word"); } else SYM_ASSERT(s[i]==u[i],"a target beyond the words scanned was changed"); }
static void scan(){ unsigned n=sym_choice(sym_param("n",5)+1,"len"); char t[9]; sym_bytes(t,n,"text"); t[n]=0; for(unsigned i=0;i<n;i++) SYM_ASSUME(t[i]!=0); check(t,sym_choice(4,"targets")+1); sym_reach("done"); }
static void words(){ static const char*T[]={"","one","one two","one two three","  one\ttwo three four","one two three four five","\n\n","a-rather-long-first-word and so on and on"}; check(T[sym_choice(8,"text")],sym_choice(4,"targets")+1); sym_reach("done"); }
static void stamp(){ static const int64_t D[]={0,951782400,1709164800,1735603200,4102358400LL}; int64_t s=D[sym_choice(5,"day")]; unsigned H=sym_choice(3,"hour")*11+1,M=sym_choice(3,"minute")*29,S=sym_choice(3,"second")*29+1; unsigned us=sym_range(0,999999,"us"); s+=H*3600+M*60+S; env_split=1; env_split_s=s; env_split_us=us; env_now_us=s*1000000;
  unsigned w=sym_choice(31,"width"); int ad=sym_choice(2,"date"); std::string g=timestr(w,ad); struct tm tm; time_t tt=s; gmtime_r(&tt,&tm); char b[64]; int n=ad?snprintf(b,64," %04d-%02d-%02dT%02d:%02d:%02d.",tm.tm_year+1900,tm.tm_mon+1,tm.tm_mday,(int)H,(int)M,(int)S):snprintf(b,64," %02d:%02d:%02d.",(int)H,(int)M,(int)S); b[n]='0'+us/100000; n++;
  unsigned e=(int)w<n?w:n; SYM_ASSERT(g.size()<=w||(int)w>=n,"never longer than requested"); SYM_ASSERT(g.size()==e,"time stamp has the requested width"); bool ok=true; for(unsigned i=0;i<e;i++) ok&=g[i]==b[n-e+i]; SYM_ASSERT(ok,"time stamp is the rightmost part of the full stamp"); if(ad==0&&w==12){ std::string d=timestr(); bool o2=d.size()==e; for(unsigned i=0;o2&&i<e;i++) o2&=d[i]==g[i]; SYM_ASSERT(o2,"default time stamp"); } sym_reach("done"); }
static void iso(){ static const int64_t D[]={0,951782399,1709164800,1735603199,2145916799LL,1000000000,86399,68256000}; int64_t s=D[sym_choice(8,"time")]; std::string g; if(sym_choice(2,"form")) Timeval::isoTime((time_t)s,g,false); else g=Timeval::isoTime((time_t)s,false); SYM_ASSERT(g.size()==20&&g[19]=='Z',"UTC form"); std::string lt=Timeval::isoTime((time_t)s,true); SYM_ASSERT(lt.size()==19,"local form"); if(!sym_is_native()) SYM_ASSERT(lt==g.substr(0,19),"local form"); struct tm tm; memset(&tm,0,sizeof tm); int a[6]; int k=sscanf(g.c_str(),"%d-%d-%dT%d:%d:%d",a,a+1,a+2,a+3,a+4,a+5); SYM_ASSERT(k==6,"ISO time has six fields"); tm.tm_year=a[0]-1900; tm.tm_mon=a[1]-1; tm.tm_mday=a[2]; tm.tm_hour=a[3]; tm.tm_min=a[4]; tm.tm_sec=a[5]; SYM_ASSERT(timegm(&tm)==s,"ISO time parses back to the time"); sym_reach("done"); }
static void clock_(){ static const int64_t D[]={0,1,86399,1000000000,1735603199,2145916799LL,4294967295LL}; env_split=1; env_split_s=D[sym_choice(7,"s")]; static const int U[]={0,1,2,3,9,10,99999,100000,123456,250000,333333,499999,500000,654321,999998,999999}; env_split_us=U[sym_choice(16,"u")]; double d=timef(); double e=(d-(double)env_split_s)*1000000.0-(double)env_split_us; SYM_ASSERT((e>-0.5)&(e<0.5),"the time in seconds is the clock's, to the microsecond"); sym_reach("done"); }
static void printed(){ static const unsigned S[]={0,1,12,86399,1000000000,1735603199,4294967295u},U[]={0,1,10,99,123456,500000,654321,999999}; unsigned s=S[sym_choice(7,"s")],u=U[sym_choice(8,"us")]; Timeval t(s,u); std::ostringstream o; if(sym_choice(2,"scientific")) o<<std::scientific; std::ostream&r=o<<t; char b[40]; snprintf(b,40,"%u.%06u",s,u); SYM_ASSERT(&r==&o&&o.str()==b,"a time prints as its seconds with six decimals"); struct timespec ts=t.timespec(); std::ostringstream q; q<<ts; snprintf(b,40,"%u,%u",s,u*1000); SYM_ASSERT(q.str()==b,"a timespec prints its seconds and nanoseconds"); sym_reach("done"); }
static void sleeps(){ static const double T[]={0,-1,-0.5,0.000005,0.00002,0.001,0.25,0.999999,1,1.5,2.75,60,3600.5,4294.5,4300.25,100000}; static const int64_t W[]={0,0,0,0,20,1000,250000,999999,1000000,1500000,2750000,60000000,3600500000LL,4294500000LL,4300250000LL,100000000000LL}; int i=sym_choice(16,"t"); int64_t a=env_now_us; sleepf(T[i]); int64_t g=env_now_us-a; SYM_ASSERT(g>=W[i]-1&&g<=W[i]+1,"the sleep lasts for the time asked"); sym_reach("done"); }
extern "C" void harness_main(void){ if(sym_param("__f",0)==(int64_t)sym_fnv("div")){ div(); return; } H(big) H(scan) H(words) H(stamp) H(iso) H(printed) if(sym_param("__f",0)==(int64_t)sym_fnv("clock")){ clock_(); return; } H(sleeps) sym_fail("unknown case"); }
