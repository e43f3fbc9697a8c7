/*SPEC
BOUNDS='each of the 6 groups and both kinds of setting (log and watch) unset, empty, any of the 13 level names, or an invalid text of 1, 2 or 20 characters with a symbolic byte; two groups set at a time, one changed (or emptied, or removed) before a second refresh; all 8 severities of a group statement, with all 8 file levels'
OUTSIDE='texts containing a NUL byte'
ASSUMES=['SQLite behaves as the model symx/models/env_sqlite.c']
case('one',reach=['set','bad','unset'],time=600)
case('other',reach=['done'],time=600)
case('again',reach=['done'],time=600)
case('emit',reach=['on','off'],time=600)
case('watch',reach=['on','off'],time=300)
case('start',reach=['done'],time=200)
*/
#include "symx.h"
#include "env.h"
#include "sqlite3util.h"
#include "Configuration.h"
#define LOG_GROUP LogGroup::SIP
#include "Logger.h"
#include "Threads.h"
#include <string.h>
ConfigurationTable gConfig;
static const char*NM[]={"EMERG","ALERT","CRIT","ERR","WARNING","NOTICE","INFO","DEBUG","INFORMATION","WARN","ERROR","CRITICAL","EMERGENCY"}; static const int VAL[]={0,1,2,3,4,5,6,7,6,4,3,2,0};
static const char*G[]={"Control","SIP","GSM","GPRS","Layer2","SMS"};
static std::string key(int kind,int g){ return std::string(kind?"Log.Watch.":"Log.Group.")+G[g]; }
static int W[2][6]; static void check(){ for(int g=0;g<6;g++){ SYM_ASSERT(gLogGroup.mDebugLevel[g]==W[0][g],"the level configured for the group"); SYM_ASSERT(gLogGroup.mWatchLevel[g]==W[1][g],"the watch level configured for the group"); } }
// 0 unset, 1 empty, 2..14 a level, 15.. invalid
static void put(int kind,int g,int how){ std::string v; if(how==0){ if(gConfig.defines(key(kind,g))) SYM_ASSERT(gConfig.remove(key(kind,g)),"remove"); W[kind][g]=0; sym_reach("unset"); return; } if(how>=2&&how<15){ v=NM[how-2]; W[kind][g]=VAL[how-2]; sym_reach("set"); } else if(how>=15){ static const int L[]={1,2,20}; int n=L[how-15]; v=std::string(n,'x'); char c=sym<char>("byte"); SYM_ASSUME(c!=0); v[n-1]=c; W[kind][g]=5; sym_reach("bad"); } else W[kind][g]=0; SYM_ASSERT(gConfig.set(key(kind,g),v),"set"); }
static void refresh(){ gLogGroup.setAll(); }
static void one(){ int kind=sym_choice(2,"kind"),g=sym_choice(6,"group"); int how=sym_choice(18,"setting"); put(kind,g,how); env_nlog=0; refresh(); check(); if(how>=15){ SYM_ASSERT(env_nlog==1&&(env_loglev[0]&7)==2,"an invalid level is reported"); SYM_ASSERT(gConfig.getStr(key(kind,g))=="NOTICE","and replaced by the default"); } else SYM_ASSERT(env_nlog==0,"nothing to report"); refresh(); check(); if(how==1) SYM_ASSERT(gConfig.getStr(key(kind,g))=="","an empty setting stays"); }
static void other(){ int a=sym_choice(12,"first"),b=sym_choice(12,"second"); if(a==b) b=(a+1)%12; put(a/6,a%6,2+sym_choice(8,"level")); put(b/6,b%6,sym_choice(2,"bad")?16:9); refresh(); check(); sym_reach("done"); }
static void again(){ int g=sym_choice(6,"group"),kind=sym_choice(2,"kind"); put(kind,g,sym_choice(16,"before")); put(!kind,g,4); refresh(); check(); put(kind,g,sym_choice(16,"after")); if(sym_choice(2,"also")) put(!kind,g,0); refresh(); check(); sym_reach("done"); }
static int gEval; static const char*msg(){ gEval++; return "text"; }
#line 1 "some.cpp"
static void say(int lvl){ switch(lvl){ case 0: LOG(EMERG)<<msg(); break; case 1: LOG(ALERT)<<msg(); break; case 2: LOG(CRIT)<<msg(); break; case 3: LOG(ERR)<<msg(); break; case 4: LOG(WARNING)<<msg(); break; case 5: LOG(NOTICE)<<msg(); break; case 6: LOG(INFO)<<msg(); break; default: LOG(DEBUG)<<msg(); } }
#line 36 "L03.cpp"
static void emit(){ int f=sym_choice(8,"file"); SYM_ASSERT(gConfig.set("Log.Level.some.cpp",std::string(NM[f])),"set"); int how=sym_choice(10,"setting"); int g=sym_choice(2,"which")?LogGroup::SIP:LogGroup::GSM; put(0,g,how); put(1,LogGroup::SIP,9); refresh(); int conf=W[0][LogGroup::SIP]>f?W[0][LogGroup::SIP]:f; int lvl=sym_choice(8,"level"); int n=env_nlog; say(lvl); bool on=lvl<=conf; sym_reach(on?"on":"off"); SYM_ASSERT(gEval==(on?1:0)&&env_nlog==n+(on?1:0),"emitted exactly when enabled for the group or the file"); if(on) SYM_ASSERT((env_loglev[n]&7)==lvl,"at its own severity"); }
static void watch(){ int how=sym_choice(10,"setting"); put(1,LogGroup::SIP,how); put(0,LogGroup::SIP,2+sym_choice(8,"log")); refresh(); bool on; int lvl=sym_choice(3,"level"); switch(lvl){ case 0: on=IS_WATCH_LEVEL(DEBUG); lvl=7; break; case 1: on=IS_WATCH_LEVEL(INFO); lvl=6; break; default: on=IS_WATCH_LEVEL(ERR); lvl=3; } sym_reach(on?"on":"off"); SYM_ASSERT(on==(lvl<=W[1][LogGroup::SIP]),"watched exactly when enabled"); }
static void start(){ check(); LogGroup l; for(int g=0;g<6;g++) SYM_ASSERT(l.mDebugLevel[g]==0&&l.mWatchLevel[g]==0,"unset at first"); sym_reach("done"); }
extern "C" void harness_main(void){ H(one) H(other) H(again) H(emit) H(watch) H(start) sym_fail("unknown case"); }
