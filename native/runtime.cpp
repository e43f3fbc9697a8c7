// Native implementation of the harness interface: replays concrete inputs against the natively compiled code.
#include <sys/mman.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <ucontext.h>
#include <dlfcn.h>
#include <map>
#include <string>
#include <vector>
#include <deque>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define ASAN 1
#endif
#endif
#ifdef ASAN
#include <sanitizer/allocator_interface.h>
#include <sanitizer/common_interface_defs.h>
#endif
struct Q{ std::vector<std::vector<uint64_t>> v; size_t i=0; void push_back(std::vector<uint64_t> x){ v.push_back(x); } };
static std::map<std::string,Q>*in; static std::map<std::string,int64_t>*par; static FILE*out; static bool dry;
static void result(const char*k,const char*m){ fprintf(out,"RESULT %s %s\n",k,m); fflush(out); }
static void quit(int c){ fflush(out); _exit(c); }
static sigjmp_buf*tryBuf; 
extern "C" {
static std::vector<uint64_t> nextIn(const char*name){ auto it=in->find(name); if(it==in->end()||it->second.i>=it->second.v.size()) return {}; return it->second.v[it->second.i++]; }
uint64_t sym_uint_(int bits,const char*name){ auto v=nextIn(name); uint64_t x=v.empty()?0:v[0]; if(bits<64) x&=(1ull<<bits)-1; return x; }
void sym_bytes(void*p,size_t n,const char*name){ auto v=nextIn(name); for(size_t i=0;i<n;i++) ((unsigned char*)p)[i]=i<v.size()?v[i]:0; }
int sym_choice(int n,const char*name){ if(n<=1) return 0; auto v=nextIn(name); unsigned x=v.empty()?0:v[0]; if(x>=(unsigned)n){ result("ASSUME","choice out of range"); quit(77); } return (int)x; }
void sym_assume_(int c){ if(!c){ result("ASSUME","assumption false"); quit(77); } }
void sym_assert_(int c,const char*m){ if(!c){ result("FAIL",m); quit(1); } }
void sym_fail(const char*m){ result("FAIL",m); quit(1); }
void sym_reach(const char*l){ fprintf(out,"REACH %s\n",l); } void sym_end(void){ result("OK","end"); quit(0); } void sym_observe(const char*n,uint64_t v){ fprintf(out,"OBS %s %llu\n",n,(unsigned long long)v); }
int64_t sym_param(const char*n,int64_t d){ auto it=par->find(n); return it==par->end()?d:it->second; } uint64_t sym_concretize(uint64_t v){ return v; }
int64_t sym_live_blocks(void){
#ifdef ASAN
  return (int64_t)__sanitizer_get_current_allocated_bytes();
#else
  return 0;
#endif
}
int sym_try(void(*fn)(void*),void*arg){ sigjmp_buf b; sigjmp_buf*old=tryBuf; int r=sigsetjmp(b,1); if(r){ tryBuf=old; return r; } tryBuf=&b; fn(arg); tryBuf=old; return 0; }
void sym_print(const char*l,uint64_t v){ fprintf(stderr,"PRINT %s %llu\n",l,(unsigned long long)v); } void sym_prints(const char*l,const char*s){ fprintf(stderr,"PRINTS %s '%s'\n",l,s); } int sym_is_native(void){ return 1; }
int __sx_is_symbolic(uint64_t){ return 0; } int __sx_mem_symbolic(const void*,unsigned long){ return 0; } uint64_t __sx_ite(int c,uint64_t a,uint64_t b){ return c?a:b; }
int __sx_fmt_double(char*b,unsigned long n,const char*f,double d){ return snprintf(b,n,f,d); }
// fibers
extern "C" void __sanitizer_start_switch_fiber(void**,const void*,size_t); extern "C" void __sanitizer_finish_switch_fiber(void*,const void**,size_t*); static const void*gMainLo; static size_t gMainSz;
struct Fib{ ucontext_t u; void(*fn)(long); long arg; char*stk; }; static Fib fib[16]; static int nf=1,curf=0; static void tramp(){ const void*lo; size_t sz; __sanitizer_finish_switch_fiber(0,&lo,&sz); if(!gMainLo){ gMainLo=lo; gMainSz=sz; } Fib&f=fib[curf]; f.fn(f.arg); sym_fail("thread function returned"); }
static long nsw; int __sx_self(void){ return curf; } long __sx_nswitch(void){ return nsw; }
int __sx_thread_create(void(*fn)(long),long arg){ int id=nf++; Fib&f=fib[id]; f.fn=fn; f.arg=arg; f.stk=(char*)mmap(0,1<<20,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); getcontext(&f.u); f.u.uc_stack.ss_sp=f.stk; f.u.uc_stack.ss_size=1<<20; f.u.uc_link=0; makecontext(&f.u,(void(*)())tramp,0); return id; }
void __sx_switch(int t){ int o=curf; if(t==o) return; curf=t; nsw++; void*fk=0; __sanitizer_start_switch_fiber(&fk,t?fib[t].stk:gMainLo,t?1<<20:gMainSz); swapcontext(&fib[o].u,&fib[t].u); __sanitizer_finish_switch_fiber(fk,0,0); }
void __sx_lock(void*){} void __sx_acq(void*){} void __sx_rel(void*){} void __sx_unlock(void*){} void __sx_dedup(long){} void __sx_cycle(void){} void __sx_note(const char*){} uint64_t __sx_steps(void){ return 0; }
void __assert_fail(const char*e,const char*f,unsigned l,const char*fn){ if(tryBuf) siglongjmp(*tryBuf,1); char b[600]; snprintf(b,600,"assertion %s at %s:%u",e,f,l); result("ABORT",b); quit(1); }
__attribute__((weak)) void __real_exit(int);
void exit(int c){ if(tryBuf) siglongjmp(*tryBuf,2); char b[64]; snprintf(b,64,"exit(%d)",c); result("EXIT",b); quit(1); }
static void onSig(int s){ char b[64]; snprintf(b,64,"signal %d",s); if(s==SIGABRT&&tryBuf) siglongjmp(*tryBuf,1); result(s==SIGALRM?"HANG":"CRASH",b); quit(s==SIGALRM?3:1); }
void harness_main(void); 
#ifdef ASAN
static void onDeath(void){ result("CRASH","sanitizer report"); fflush(out); }
#endif
}
int main(int argc,char**argv){ in=new std::map<std::string,Q>; par=new std::map<std::string,int64_t>; out=fopen(argv[2],"w"); static char obuf[1<<16]; setvbuf(out,obuf,_IOFBF,sizeof obuf); FILE*f=fopen(argv[1],"r"); char nm[512]; while(f){ unsigned n; char k; if(fscanf(f," %c %511s %u",&k,nm,&n)!=3) break; std::vector<uint64_t> v; for(unsigned i=0;i<n;i++){ unsigned long long x; if(fscanf(f,"%llu",&x)!=1) break; v.push_back(x); } if(k=='P') (*par)[nm]=(int64_t)v[0]; else (*in)[nm].push_back(v); } if(f) fclose(f);
  for(auto s:{SIGSEGV,SIGBUS,SIGFPE,SIGILL,SIGABRT,SIGALRM}) if(s==SIGALRM||s==SIGABRT||s==SIGFPE||s==SIGILL
#ifndef ASAN
    ||1
#endif
  ) signal(s,onSig);
#ifdef ASAN
  __sanitizer_set_death_callback(onDeath);
#endif
  alarm(argc>3?atoi(argv[3]):20);
  { volatile char*w=new char[100]; delete[] w; char t[64]; snprintf(t,64,"%f",1.5); }
  try{ harness_main(); }catch(std::exception&e){ std::string m=std::string("uncaught exception ")+typeid(e).name(); result("EXC",m.c_str()); quit(1); }catch(...){ result("EXC","uncaught exception"); quit(1); }
  result("OK","returned"); quit(0); }
// scheduler knobs of the thread model: no effect on the real scheduler
extern "C" { __attribute__((weak)) int env_preempt=-1; __attribute__((weak)) int env_nopreempt=0; __attribute__((weak)) int env_fixed=0; __attribute__((weak)) int env_spurious=0; }
