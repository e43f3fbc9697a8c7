/*SPEC
BOUNDS='every sequence of 5 operations (create, copy, assign, label, delete, delete as its base class) on 3 objects of two checked classes, one of them checked twice over; two threads of two operations each, every interleaving of their synchronisation operations and of any unsynchronised shared access; every class of the table printed with any counts'
OUTSIDE='more objects or threads; an object labelled twice; the abort on underflow when gMemLeakDebug is set'
ASSUMES=['leak checking is compiled in (RN_DISABLE_MEMORY_LEAK_TEST unset, the default)']
case('history',reach=['done'],time=600)
case('print',reach=['done'],time=300)
case('threads',reach=['done'],time=600,conc=True)
case('labels',reach=['done'],time=600,conc=True)
case('report',reach=['done'],time=600,conc=True)
NATIVE='bc'
*/
#include "symx.h"
#include "env.h"
#include "Utils.h"
#include "MemoryLeak.h"
#include "Configuration.h"
#include "Threads.h"
#include <sstream>
ConfigurationTable gConfig;
using namespace Utils;
DEFINE_MEMORY_LEAK_DETECTOR_CLASS(TBF,MemCheckTBF)
DEFINE_MEMORY_LEAK_DETECTOR_CLASS(SipBase,MemCheckSipBase)
DEFINE_MEMORY_LEAK_DETECTOR_CLASS(SipDialog,MemCheckSipDialog)
struct A : public MemCheckTBF { int v; A(int x=0):v(x){} };
struct B : public MemCheckSipBase { int v; B(int x=0):v(x){} };
struct C : public B, public MemCheckSipDialog { C(int x=0):B(x){} };
static int now(int i){ return gMemStats.mMemNow[i]; }
static int total(int i){ return gMemStats.mMemTotal[i]; }
static int labelled(){ int n=0; for(MemStats::MemMapType::iterator i=gMemStats.mMemMap.begin();i!=gMemStats.mMemMap.end();++i){ int k=i->second; SYM_ASSERT(k>=0,"no label is counted below zero"); n+=k; } return n; }
static void lab(A*a){ RN_MEMLOG(A,a) }
static void labc(C*c){ RN_MEMLOG(C,c) }
static void history(){ A*a[2]={0,0}; C*c=0; bool la[2]={false,false},lc=false; int ma=0,mc=0,nl=0; 
  for(int s=0;s<5;s++){ int k=sym_choice(9,"op");
    if(k<2){ if(a[k]) sym_end(); a[k]=new A(sym<int>("v")); la[k]=false; ma++; }
    else if(k==2){ if(!a[0]||a[1]) sym_end(); a[1]=new A(*a[0]); la[1]=false; ma++; SYM_ASSERT(a[1]->v==a[0]->v,"copied"); }
    else if(k==3){ if(!a[0]||!a[1]) sym_end(); *a[1]=*a[0]; SYM_ASSERT(a[1]->v==a[0]->v,"assigned"); }
    else if(k<6){ k-=4; if(!a[k]) sym_end(); delete a[k]; a[k]=0; if(la[k]) nl--; la[k]=false; }
    else if(k==6){ if(!a[0]||la[0]) sym_end(); lab(a[0]); la[0]=true; nl++; }
    else if(k==7){ if(c) sym_end(); c=new C(s); mc++; if(sym_choice(2,"label")){ labc(c); lc=true; nl++; } }
    else { if(!c) sym_end(); if(sym_choice(2,"base")) delete (MemLabel*)c; else delete c; if(lc) nl--; lc=false; c=0; }
    SYM_ASSERT(now(MemStats::mTBF)==(a[0]!=0)+(a[1]!=0),"the count is the number of live objects"); SYM_ASSERT(total(MemStats::mTBF)==ma,"the total is the number of objects ever made"); SYM_ASSERT(now(MemStats::mSipBase)==(c!=0)&&now(MemStats::mSipDialog)==(c!=0),"an object counts for each of its classes"); SYM_ASSERT(total(MemStats::mSipBase)==mc&&total(MemStats::mSipDialog)==mc,"an object is counted once in each of its classes"); SYM_ASSERT(labelled()==nl,"the label counts are those of the live labelled objects"); SYM_ASSERT(now(MemStats::mVector)==0&&total(MemStats::mVector)==0,"no other class is counted"); }
  if(ma) SYM_ASSERT(!strcmp(gMemStats.mMemName[MemStats::mTBF],"TBF"),"the class is named"); sym_reach("done"); }
static void print(){ int which=sym_choice(MemStats::mMax,"class"),n=sym_choice(4,"made"),d=sym_choice(n+1,"deleted"); for(int i=0;i<n;i++) gMemStats.memChkNew((MemStats::MemoryNames)which,"Some"); for(int i=0;i<d;i++) gMemStats.memChkDel((MemStats::MemoryNames)which,"Some"); std::ostringstream o,w; gMemStats.text(o); w<<"Structs current total:\n"; for(int i=0;i<MemStats::mMax;i++){ if(i==which&&n) w<<"\tSome "<<n-d<<" "<<n<<"\n"; else w<<"\tunknown 0 0\n"; } SYM_ASSERT(o.str()==w.str(),"every class is printed with its counts"); sym_reach("done"); }
static A*kept[2];
static void*work(void*p){ int i=*(int*)p; A*x=new A(1); if(sym_choice(2,"copy")){ A*y=new A(*x); delete x; x=y; } if(sym_choice(2,"keep")) kept[i]=x; else delete x; return 0; }
static int I[2]={0,1};
static void threads(){ Thread t[2]; for(int i=0;i<2;i++) t[i].start(work,&I[i]); for(int i=0;i<2;i++) t[i].join(); SYM_ASSERT(now(MemStats::mTBF)==(kept[0]!=0)+(kept[1]!=0),"the count is the number of live objects"); SYM_ASSERT(total(MemStats::mTBF)>=2&&total(MemStats::mTBF)<=4,"every object made is counted"); sym_reach("done"); }
static void*lwork(void*p){ int i=*(int*)p; A*x=new A(1); lab(x); if(sym_choice(2,"keep")) kept[i]=x; else delete x; return 0; }
static void labels(){ Thread t[2]; for(int i=0;i<2;i++) t[i].start(lwork,&I[i]); for(int i=0;i<2;i++) t[i].join(); SYM_ASSERT(labelled()==(kept[0]!=0)+(kept[1]!=0),"the label counts are those of the live labelled objects"); sym_reach("done"); }
static void report(){ Thread t; t.start(work,&I[0]); std::ostringstream o; gMemStats.text(o); t.join(); std::string s=o.str(); size_t p=0; int lines=0; for(size_t i=0;i<s.size();i++) if(s[i]=='\n'){ lines++; p=i; } SYM_ASSERT(lines==MemStats::mMax+1&&p+1==s.size(),"a report while objects are made is whole"); sym_reach("done"); }
extern "C" void harness_main(void){ H(history) H(print) H(threads) H(labels) H(report) sym_fail("unknown case"); }
