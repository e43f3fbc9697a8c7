/*SPEC
BOUNDS='every clock value with seconds 0..2^32-1 and microseconds 0..999999; every 32-bit millisecond offset; every pair of normalised times'
OUTSIDE='times beyond 2^32-1 seconds (the sec() accessor is 32 bits wide)'
for f in ['future','futurectx','delta','elapsed','passed','minutes','spec','ctor','printing']: case(f,reach=['done'],time=300,qt=200000)
*/
#include "symx.h"
#include "env.h"
#include "Timeval.h"
#include <sstream>
static int64_t S(const char*n){ int64_t v=(int64_t)(uint32_t)sym<uint32_t>(n); return v; }
static int64_t U(const char*n){ int64_t v=(int64_t)sym_bits(20,n); SYM_ASSUME(v<1000000); return v; }
static void clock_(){ env_split=1; env_split_s=S("now_s"); env_split_us=U("now_us"); }
static void checkFuture(const Timeval&t,uint32_t ms){
	struct timespec ts=t.timespec(); SYM_ASSERT((ts.tv_nsec>=0)&(ts.tv_nsec<1000000000),"nanoseconds not within one second"); SYM_ASSERT(t.usec()<1000000u,"microseconds not within one second");
	SYM_ASSERT(ts.tv_nsec==(long)t.usec()*1000,"timespec and microseconds disagree");
	uint32_t sec=ms/1000, msec=ms%1000; int64_t us=env_split_us+msec*1000ll, s=env_split_s+sec; bool c=us>=1000000; if(c) us-=1000000; s+=c;
	SYM_ASSERT((ts.tv_sec==s)&(ts.tv_nsec==us*1000),"a future time is not exactly the offset after now"); SYM_ASSERT((t.sec()==(uint32_t)s)&(t.usec()==(uint32_t)us),"sec and usec of a future time");
}
static void future(){ clock_(); uint32_t ms=sym<uint32_t>("offset"); Timeval t(5u,6u); t.future(ms); checkFuture(t,ms); sym_reach("done"); }
static void futurectx(){ clock_(); uint32_t ms=sym<uint32_t>("offset"); if(sym_choice(2,"how")){ Timeval t(ms); checkFuture(t,ms); } else { Timeval t; checkFuture(t,0); t.now(); checkFuture(t,0); } sym_reach("done"); }
static void deltacheck(long d,int64_t ds,int64_t dus,const char*m1,const char*m2){	// |d*1000 - (ds*1e6+dus)| < 1000 and the sign is right
	int64_t e=(d-ds*1000)*1000-dus; SYM_ASSERT((e<1000)&(e>-1000),m1); bool neg=(ds<0)|((ds==0)&(dus<0)), pos=(ds>0)|((ds==0)&(dus>0)); SYM_ASSERT(!((d>0)&!pos)&!((d<0)&!neg),m2);
}
static void delta(){ int64_t s1=S("s1"),u1=U("u1"),s2=S("s2"),u2=U("u2"); Timeval a((unsigned)s1,(unsigned)u1),b((unsigned)s2,(unsigned)u2); deltacheck(a.delta(b),s2-s1,u2-u1,"difference of two times is off by a millisecond or more","difference of two times has the wrong sign"); sym_reach("done"); }
static void elapsed(){ clock_(); int64_t s1=S("s1"),u1=U("u1"); Timeval a((unsigned)s1,(unsigned)u1); deltacheck(a.elapsed(),env_split_s-s1,env_split_us-u1,"elapsed time is off by a millisecond or more","elapsed time has the wrong sign"); deltacheck(a.remaining(),s1-env_split_s,u1-env_split_us,"remaining time is off by a millisecond or more","remaining time has the wrong sign"); sym_reach("done"); }
static void passed(){ clock_(); int64_t s1=S("s1"),u1=U("u1"); Timeval a((unsigned)s1,(unsigned)u1); bool later=(env_split_s>s1)|((env_split_s==s1)&(env_split_us>u1)); SYM_ASSERT(a.passed()==later,"passed must hold exactly when now is strictly later"); sym_reach("done"); }
static void minutes(){ int64_t s1=S("s1"),u1=U("u1"); Timeval a((unsigned)s1,(unsigned)u1); uint32_t m=sym<uint32_t>("minutes"); a.addMinutes(m); struct timespec t=a.timespec(); SYM_ASSERT((t.tv_sec==s1+(int64_t)m*60)&(t.tv_nsec==u1*1000),"adding minutes does not add exactly that many"); sym_reach("done"); }
static void spec(){ int64_t s1=S("s1"),u1=U("u1"); struct timeval tv; tv.tv_sec=s1; tv.tv_usec=u1; Timeval a(tv); SYM_ASSERT(a.sec()==(uint32_t)s1&&a.usec()==(uint32_t)u1,"time from a timeval"); struct timespec t=a.timespec(); SYM_ASSERT((t.tv_sec==s1)&(t.tv_nsec==u1*1000),"timespec of a time"); sym_reach("done"); }
static void ctor(){ clock_(); int64_t s1=S("s1"),u1=U("u1"); Timeval a((unsigned)s1,(unsigned)u1),b(a); SYM_ASSERT(b.sec()==(uint32_t)s1&&b.usec()==(uint32_t)u1,"copy"); a.now(); SYM_ASSERT(a.sec()==(uint32_t)env_split_s&&a.usec()==(uint32_t)env_split_us,"now"); SYM_ASSERT(b.sec()==(uint32_t)s1,"copy changed"); sym_reach("done"); }
static void printing(){	// seconds as a decimal number
	static const uint32_t SS[]={0,1,59,1400000000u,4294967295u}, UU[]={0,1,500000,999999,123456}; uint32_t s=SS[sym_choice(5,"s")],u=UU[sym_choice(5,"u")]; Timeval a(s,u); double d=a.seconds(), e=(d-(double)s)*1e6-(double)u; SYM_ASSERT(e<1.0&&e>-1.0,"seconds() is off by a microsecond or more"); sym_reach("done");
}
extern "C" void harness_main(void){ H(future) H(futurectx) H(delta) H(elapsed) H(passed) H(minutes) H(spec) H(ctor) H(printing) sym_fail("unknown case"); }
