// Clock model: a single microsecond counter; sleeping advances it; calendar conversion is proleptic Gregorian UTC.
#include "env.h"
#include <time.h>
#include <sys/time.h>
#include <unistd.h>
#include <string.h>
int64_t env_now_us=1400000000000000ll, env_tick_us=0, env_wall_off=0; int (*env_clock_hook)(void)=0; int env_slept=0;
static int64_t now(void){ if(env_clock_hook) env_clock_hook(); env_now_us+=env_tick_us; return env_now_us; }
int env_split=0; int64_t env_split_s,env_split_us; // clock given as seconds and microseconds
int gettimeofday(struct timeval*tv,void*tz){ if(env_split){ if(env_clock_hook) env_clock_hook(); if(tv){ tv->tv_sec=env_split_s; tv->tv_usec=env_split_us; } return 0; } int64_t t=now()+env_wall_off; if(tv){ tv->tv_sec=t/1000000; tv->tv_usec=t%1000000; } return 0; }
time_t time(time_t*p){ time_t t; if(env_split){ if(env_clock_hook) env_clock_hook(); t=env_split_s+env_wall_off/1000000; } else t=(now()+env_wall_off)/1000000; if(p) *p=t; return t; }
int clock_gettime(clockid_t c,struct timespec*ts){ if(env_split){ if(env_clock_hook) env_clock_hook(); ts->tv_sec=env_split_s; ts->tv_nsec=env_split_us*1000; if(c==CLOCK_REALTIME||c==CLOCK_REALTIME_COARSE) ts->tv_sec+=env_wall_off/1000000; return 0; } int64_t t=now(); if(c==CLOCK_REALTIME||c==CLOCK_REALTIME_COARSE) t+=env_wall_off; ts->tv_sec=t/1000000; ts->tv_nsec=t%1000000*1000; return 0; }
#ifndef ENV_NO_SLEEP
int usleep(useconds_t n){ env_slept++; env_now_us+=n; return 0; } unsigned sleep(unsigned n){ env_slept++; env_now_us+=(int64_t)n*1000000; return 0; } int nanosleep(const struct timespec*a,struct timespec*b){ env_slept++; env_now_us+=(int64_t)a->tv_sec*1000000+a->tv_nsec/1000; return 0; }
#endif
static struct tm*civil(time_t t,struct tm*r){ int64_t d=t/86400,s=t%86400; if(s<0){ s+=86400; d--; } memset(r,0,sizeof *r); r->tm_hour=s/3600; r->tm_min=s/60%60; r->tm_sec=s%60; r->tm_wday=(int)((d%7+11)%7); int64_t z=d+719468; int64_t era=(z>=0?z:z-146096)/146097; unsigned doe=(unsigned)(z-era*146097); unsigned yoe=(doe-doe/1460+doe/36524-doe/146096)/365; int64_t y=(int64_t)yoe+era*400; unsigned doy=doe-(365*yoe+yoe/4-yoe/100); unsigned mp=(5*doy+2)/153; r->tm_mday=doy-(153*mp+2)/5+1; unsigned m=mp<10?mp+3:mp-9; r->tm_mon=m-1; y+=m<=2; r->tm_year=(int)(y-1900); int leap=(y%4==0&&y%100!=0)||y%400==0; static const short cum[12]={0,31,59,90,120,151,181,212,243,273,304,334}; r->tm_yday=cum[m-1]+r->tm_mday-1+(leap&&m>2); r->tm_isdst=0; 
#ifdef __USE_MISC
  r->tm_gmtoff=0; r->tm_zone="UTC";
#endif
  return r; }
struct tm*localtime_r(const time_t*t,struct tm*r){ return civil(*t,r); } struct tm*gmtime_r(const time_t*t,struct tm*r){ return civil(*t,r); } static struct tm tmb; struct tm*localtime(const time_t*t){ return civil(*t,&tmb); } struct tm*gmtime(const time_t*t){ return civil(*t,&tmb); }
time_t timegm(struct tm*m){ int64_t y=m->tm_year+1900ll, mo=m->tm_mon+1; y-=mo<=2; int64_t era=(y>=0?y:y-399)/400; unsigned yoe=(unsigned)(y-era*400); unsigned doy=(153*(mo>2?mo-3:mo+9)+2)/5+m->tm_mday-1; unsigned doe=yoe*365+yoe/4-yoe/100+doy; return (era*146097+(int64_t)doe-719468)*86400+m->tm_hour*3600+m->tm_min*60+m->tm_sec; } time_t mktime(struct tm*m){ return timegm(m); } void tzset(void){}
