/*SPEC
NATIVE='bc'
BOUNDS='any integer as the signal number; up to 4 registrations of 3 handlers for 3 signals; handlers registered in a second thread (every interleaving at lock operations); every core dump setting; program names of up to 3 arbitrary bytes and of up to 60 characters; any content of an existing file; another instance starting at the same time'
OUTSIDE='a signal arriving within a registration or during the handling of another; more than 64 signals; program names longer than 80 characters; what the core dumper and the shell commands do; whether the instance named by an existing file still runs (any existing file stops the program, as documented in the message)'
ASSUMES=['signals, files and processes behave as in symx/models/env_sig.c and env_out.c']
STUBS='signal, kill, system, WriteCoreDump, stat, fopen, unlink, atexit: symx/models/env_sig.c, env_out.c'
case('numbers',reach=['in','out'],time=300)
for n in range(0,5): case('order.%d'%n,n=n,reach=['done'],time=300,f='order')
case('all',reach=['done'],time=300); case('deliver',reach=['done','out'],time=300); case('core',reach=['dump','none'],time=500); case('files',reach=['done'],time=300); case('destroy',reach=['done'],time=300)
case('threads',preempt=1,reach=['done'],time=300,conc=True); case('during',preempt=1,reach=['done'],time=300,conc=True)
for n in range(1,4): case('self.%d'%n,conf=1,n=n,reach=['new','exists'],time=400,f='self')
case('names',conf=1,reach=['done'],time=300); case('race',conf=1,reach=['stopped'],time=300); case('nofile',conf=1,reach=['stopped'],time=300); case('ending',conf=1,reach=['done'],time=400); case('signals',conf=1,reach=['done'],time=400); case('bare',reach=['done'],time=300); case('settings',reach=['done'],time=300)
*/
#include "symx.h"
#include "env.h"
#include "Configuration.h"
#include "UnixSignal.h"
#include "SelfDetect.h"
#include "Threads.h"
#include <string.h>
#include <stdlib.h>
#include <string>
ConfigurationTable gConfig; UnixSignal gSigVec; SelfDetect gSelf;
static int gLog[16],gSig[16],gN; static void note(int k,int s){ if(gN<16){ gLog[gN]=k; gSig[gN]=s; } gN++; } static void hA(int s){ note(0,s); } static void hB(int s){ note(1,s); } static void hC(int s){ note(2,s); } static const sighandler_t HS[3]={hA,hB,hC};
static int evs(int kind){ int c=0; for(int i=0;i<env_nev&&i<ENV_EVMAX;i++) c+=env_evs[i].kind==kind; return c; } static env_ev*evn(int kind,int k=0){ for(int i=0;i<env_nev&&i<ENV_EVMAX;i++) if(env_evs[i].kind==kind&&!k--) return &env_evs[i]; return 0; }
static void numbers(){ UnixSignal u; static const int B[]={-2147483647-1,-1,0,1,11,31,32,63,64,65,100,127,2147483647}; int w=sym_choice(14,"which"); int s=w<13?B[w]:(int)sym_range(-99,999,"sig"); env_nev=0; u.Register(hA,s); bool in=(s>0)&(s<UnixSignal::C_NSIG); if(in){ SYM_ASSERT(evs(1)==1&&evn(1)->a==s,"the signal is caught"); gN=0; u.Handler(s); SYM_ASSERT(gN==1&&gLog[0]==0&&gSig[0]==s,"its handler is called with it"); int t=B[sym_choice(13,"other")]; if(t!=s){ u.Handler(t); SYM_ASSERT(gN==1,"other signals do not reach it"); } sym_reach("in"); } else { SYM_ASSERT(env_nev==0,"nothing is caught"); u.Handler(s); SYM_ASSERT(gN==0&&evs(1)==0,"nothing happens"); sym_reach("out"); } }
static const int SG[3]={SIGHUP,SIGSEGV,63};
static void order(){ UnixSignal u; int n=sym_param("n",2); int hs[4],ss[4]; for(int i=0;i<n;i++){ hs[i]=sym_choice(3,"handler"); ss[i]=sym_choice(3,"signal"); u.Register(HS[hs[i]],SG[ss[i]]); } int d=sym_choice(3,"deliver"); for(int rep=0;rep<2;rep++){ gN=0; u.Handler(SG[d]); int k=0; for(int i=0;i<n;i++) if(ss[i]==d){ SYM_ASSERT(k<gN&&gLog[k]==hs[i]&&gSig[k]==SG[d],"handlers are called in the order they were registered"); k++; } SYM_ASSERT(gN==k,"once each, and no others"); } u.Dump(); sym_reach("done"); }
static void all(){ UnixSignal u; int x=sym_choice(2,"from"); for(int s=-3;s<70;s++) if((s&1)==x){ u.Register(hA,s); if(s%3==0) u.Register(hB,s); } for(int s=-3;s<70;s++){ gN=0; u.Handler(s); bool in=s>0&&s<64&&(s&1)==x; SYM_ASSERT(gN==(in?(s%3==0?2:1):0),"exactly what was registered for it"); } sym_reach("done"); }
static void deliver(){ int s=SG[sym_choice(3,"signal")]; gSigVec.CoreName("c",false); gSigVec.Register(hA,s); gSigVec.Register(hB,s); if(!sym_choice(3,"bad")){ auto f=(void(*)(int))env_sig_now(s); static const int B[]={-2147483647-1,-1,0,64,65,66,1000000000,2147483647}; int w=sym_choice(9,"which"); int t=w<8?B[w]:(int)sym_range(64,999,"t"); env_nev=0; f(t); SYM_ASSERT(gN==0&&evs(2)==0,"a signal out of range reaches nobody"); sym_reach("out"); return; } env_nev=0; SYM_ASSERT(env_sig_deliver(s),"caught"); SYM_ASSERT(gN==2&&gLog[0]==0&&gLog[1]==1&&gSig[0]==s&&gSig[1]==s,"each handler once, in order"); SYM_ASSERT(evs(2)==1,"then the signal is raised again"); env_ev*k=evn(2); SYM_ASSERT(k->a==s&&k->b==4242&&k->p==(void*)SIG_DFL,"with its default action, to this process"); env_ev*f=evn(1); SYM_ASSERT(f->a==s&&f->p==(void*)SIG_IGN,"ignored while it is handled"); SYM_ASSERT(evs(4)==(s==SIGSEGV),"a core for a crash"); sym_reach("done"); }
static bool isCore(int s){ return s==SIGQUIT||s==SIGILL||s==SIGABRT||s==SIGFPE||s==SIGSEGV||s==SIGBUS||s==SIGSYS||s==SIGTRAP||s==SIGXCPU||s==SIGXFSZ; }
static void core(){ UnixSignal u; int cfg=sym_choice(3,"configured"); std::string nm="core"; bool pid=false; if(cfg){ nm=cfg==1?"/x/dump":std::string(300,'d'); pid=sym_choice(2,"pid"); u.CoreName(nm,pid); } int s=1+sym_choice(63,"signal"); u.Register(hA,s); env_nev=0; env_dump_ret=sym_choice(2,"ret")?0:-1; u.Handler(s); SYM_ASSERT(gN==1,"the handler is called"); SYM_ASSERT(evs(3)==0,"nothing is saved that was not asked for"); if(isCore(s)){ SYM_ASSERT(evs(4)==1,"one core"); env_ev*e=evn(4); std::string want=nm; if(pid) want+=".4242"; SYM_ASSERT(e->len==want.size()&&!strncmp(e->s,want.c_str(),255),"the name of the core file"); sym_reach("dump"); } else { SYM_ASSERT(evs(4)==0,"no core"); sym_reach("none"); } }
static void files(){ UnixSignal u; bool save=sym_choice(2,"save"); u.TarName("/x/files.tgz",save); int s=sym_choice(2,"sig")?SIGABRT:SIGTERM; env_nev=0; u.Handler(s); bool want=save&&s==SIGABRT; SYM_ASSERT(evs(3)==want,"files are saved with a core when asked for"); if(want) SYM_ASSERT(evn(3)->len>300,"the command"); sym_reach("done"); }
static void destroy(){ { UnixSignal u; u.Register(hA,SIGHUP); u.Register(hA,SIGSEGV); } SYM_ASSERT(env_sig_now(SIGHUP)==0&&env_sig_now(SIGSEGV)==0,"signals are back to their default"); SYM_ASSERT(!env_sig_deliver(SIGHUP)&&gN==0,"no handler is left"); sym_reach("done"); }
static void*reg(void*){ gSigVec.Register(hB,SIGHUP); gSigVec.Register(hC,SIGSEGV); return 0; }
static void threads(){ env_preempt=4; Thread t; t.start(reg,0); gSigVec.Register(hA,SIGHUP); gSigVec.Register(hC,SIGHUP); t.join(); gN=0; gSigVec.Handler(SIGHUP); SYM_ASSERT(gN==3,"every handler once"); int seen=0,ia=-1,ic=-1; for(int i=0;i<3;i++){ seen|=1<<gLog[i]; if(gLog[i]==0) ia=i; if(gLog[i]==2) ic=i; } SYM_ASSERT(seen==7&&ia<ic,"in order"); gN=0; gSigVec.Handler(SIGSEGV); SYM_ASSERT(gN==1&&gLog[0]==2,"its own handler"); sym_reach("done"); }
static void during(){ env_preempt=4; gSigVec.Register(hA,SIGHUP); Thread t; t.start(reg,0); gN=0; gSigVec.Handler(SIGHUP); SYM_ASSERT(gN>=1&&gN<=2&&gLog[0]==0,"what was registered before is called"); t.join(); gN=0; gSigVec.Handler(SIGHUP); SYM_ASSERT(gN==2,"then both"); sym_reach("done"); }
// self detection
static void cfg(const char*f="core",const char*pid="0",const char*tar="/t.tgz",const char*save="0"){ gConfig.set("Core.File",f); gConfig.set("Core.Pid",pid); gConfig.set("Core.TarFile",tar); gConfig.set("Core.SaveFiles",save); }
static void settings(){ static const char*F[]={"core","/var/x/dump",""}; const char*f=F[sym_choice(3,"file")]; bool pid=sym_choice(2,"pid"),save=sym_choice(2,"save"); cfg(f,pid?"1":"0","/var/files.tgz",save?"1":"0"); gSelf.RegisterProgram("prog"); env_nev=0; SYM_ASSERT(env_sig_deliver(SIGSEGV),"caught"); std::string want=f; if(pid) want+=".4242"; SYM_ASSERT(evs(4)==1&&want==evn(4)->s,"the core file configured"); SYM_ASSERT(evs(3)==save,"files are saved as configured"); SYM_ASSERT(!env_file_exists("/var/run/prog.pid"),"the file is removed"); sym_reach("done"); }
static std::string content(const std::string&f){ char b[200]; int k=env_file_get(f.c_str(),b,200); return k<0?std::string("(none)"):std::string(b,k); }
static void self(){ int n=sym_param("n",1); char nm[4]; sym_bytes(nm,n,"name"); nm[n]=0; for(int i=0;i<n;i++) SYM_ASSUME(nm[i]!=0&&nm[i]!='/'); std::string arg; switch(sym_choice(3,"path")){ case 0: arg=nm; break; case 1: arg=std::string("./")+nm; break; default: arg=std::string("/usr/bin/")+nm; } std::string file=std::string("/var/run/")+nm+".pid"; bool ex=sym_choice(2,"exists"); char old[3]; if(ex){ sym_bytes(old,3,"old"); env_file_put(file.c_str(),old,sym_choice(2,"empty")?0:3); } std::string before=content(file);
	SelfDetect s; int r=sym_try_f([&]{ s.RegisterProgram(arg.c_str()); }); if(ex){ SYM_ASSERT(r==2,"a second instance exits"); SYM_ASSERT(content(file)==before,"the file of the first is left alone"); for(int i=0;i<env_natexit;i++) env_atexit[i](); SYM_ASSERT(content(file)==before,"the file of the first is left alone"); sym_reach("exists"); return; } SYM_ASSERT(r==0,"the first instance goes on"); SYM_ASSERT(content(file)=="4242\n","the file names this process"); SYM_ASSERT(env_file_open_count()==0,"and is closed"); SelfDetect t; r=sym_try_f([&]{ t.RegisterProgram(arg.c_str()); }); SYM_ASSERT(r==2&&content(file)=="4242\n","one instance at a time"); s.Exit(0); SYM_ASSERT(!env_file_exists(file.c_str()),"the file goes when the program ends"); r=sym_try_f([&]{ t.RegisterProgram(arg.c_str()); }); SYM_ASSERT(r==0&&content(file)=="4242\n","then another may start"); sym_reach("new"); }
static void names(){ static const int LN[]={1,5,20,60,80}; int n=LN[sym_choice(5,"len")]; std::string nm(n,'n'),arg=(sym_choice(2,"dir")?"/a/b/":"")+nm; SelfDetect s,t; s.RegisterProgram(arg.c_str()); SYM_ASSERT(content("/var/run/"+nm+".pid")=="4242\n","its file"); int r=sym_try_f([&]{ t.RegisterProgram((arg+"x").c_str()); }); SYM_ASSERT(r==0&&content("/var/run/"+nm+"x.pid")=="4242\n","another program is not in the way"); s.Exit(0); SYM_ASSERT(!env_file_exists(("/var/run/"+nm+".pid").c_str())&&env_file_exists(("/var/run/"+nm+"x.pid").c_str()),"each removes its own"); sym_reach("done"); }
static const char*gRival; static void rival(const char*n){ if(gRival&&strstr(n,gRival)&&!env_file_exists(n)) env_file_put(n,"777\n",4); }
static void race(){ gRival="prog"; env_fopen_hook=rival; SelfDetect s; int r=sym_try_f([&]{ s.RegisterProgram(sym_choice(2,"dir")?"/x/prog":"prog"); }); SYM_ASSERT(r==2,"one of two instances started at once exits"); SYM_ASSERT(content("/var/run/prog.pid")=="777\n","the file names the one that goes on"); for(int i=0;i<env_natexit;i++) env_atexit[i](); SYM_ASSERT(content("/var/run/prog.pid")=="777\n","the file names the one that goes on"); sym_reach("stopped"); }
static void nofile(){ env_fopen_fail=1; SelfDetect s; int r=sym_try_f([&]{ s.RegisterProgram("prog"); }); SYM_ASSERT(r==2,"without its file the program exits"); sym_reach("stopped"); }
static void put(const char*f){ env_file_put(f,"x",1); }
static void ending(){ put("/tmp/one"); put("/tmp/two"); put("/tmp/three"); int n=sym_choice(3,"files"); gSelf.RegisterProgram("/bin/prog"); { char t[16]; strcpy(t,"/tmp/one"); if(n>0) gSelf.RegisterFile(t); strcpy(t,"/tmp/two"); if(n>1) gSelf.RegisterFile(t); memset(t,'!',15); } put("/var/run/other.pid"); SYM_ASSERT(env_file_exists("/tmp/one")&&env_file_exists("/tmp/two"),"not before the end"); int how=sym_choice(2,"how"); if(how){ SYM_ASSERT(env_natexit==1,"asks to be told of the end"); env_atexit[0](); } else gSelf.Exit(sym<int>("sig")); SYM_ASSERT(!env_file_exists("/var/run/prog.pid"),"the program's file is removed"); SYM_ASSERT(env_file_exists("/tmp/one")==(n<1)&&env_file_exists("/tmp/two")==(n<2),"the files registered are removed"); SYM_ASSERT(env_file_exists("/tmp/three")&&env_file_exists("/var/run/other.pid"),"and no others"); sym_reach("done"); }
static void signals(){ gSelf.RegisterProgram("prog"); int s=1+sym_choice(63,"signal"); int d=env_sig_deliver(s); if(s==SIGCHLD||s==SIGCONT||s==SIGKILL||s==SIGSTOP){ SYM_ASSERT(!d&&env_file_exists("/var/run/prog.pid"),"does not end the program"); } else { SYM_ASSERT(d,"caught"); SYM_ASSERT(!env_file_exists("/var/run/prog.pid"),"the file is removed when a signal ends the program"); env_ev*k=evn(2); SYM_ASSERT(k&&k->a==s&&k->p==0,"the signal then ends it"); } sym_reach("done"); }
static void bare(){ put("/var/run/prog.pid"); put("/tmp/one"); if(sym_choice(2,"file")) gSelf.RegisterFile("/tmp/one"); gSelf.Exit(0); SYM_ASSERT(env_file_exists("/var/run/prog.pid"),"a program not registered has no file"); sym_reach("done"); }
extern "C" void harness_main(void){ env_fixed=!sym_param("preempt",0); if(sym_param("conf",0)) cfg(); H(numbers) H(order) H(all) H(deliver) H(core) H(files) H(destroy) H(threads) H(during) H(self) H(names) H(race) H(nofile) H(ending) H(signals) H(bare) H(settings) sym_fail("unknown case"); }
