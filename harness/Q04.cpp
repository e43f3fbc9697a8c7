/*SPEC
BOUNDS='three threads of one operation each (at most one of them timed, any number when thorough), or two threads of two and one, each operation any of write, timed and untimed read and get, non-blocking read and get, remove and size, on two distinct keys of any value, from an empty map or one holding a key; every interleaving of their synchronisation operations; sequences of 4 operations in one thread; blocking readers against a writer'
OUTSIDE='more threads or operations; keys of other types than int; writing the pointer a key already holds; blocking reads of a key another thread removes'
for a in range(7):
  for b in range(a,7):
    case('one.%d.%d'%(a,b),a=a,b=b,conc=True,reach=['done'],time=500,f='one') if b<5 else None
    case('three.%d.%d'%(a,b),a=a,b=b,timed=9,conc=True,reach=['done'],time=900,f='one',tier='thorough')
  case('twoone.%d'%a,a=a,conc=True,reach=['done'],time=500,f='twoone')
case('block',conc=True,reach=['done'],time=400)
case('blockspur',spur=2,conc=True,reach=['done'],time=400,f='block')
case('seq',n=4,conc=True,reach=['done'],time=500,f='seqp')
case('seqval',n=4,conc=True,reach=['done'],time=500,f='seqv')
case('seqlong',n=5,conc=True,reach=['done'],time=900,f='seqp',tier='thorough')
*/
#include "symx.h"
#include "env.h"
#include "Interthread.h"
#include "Configuration.h"
ConfigurationTable gConfig;
struct E; static char gPool[16][16]; static int gDel[16],gUsed=0;
struct E { int id; static E*make(){ int i=gUsed++; E*e=(E*)gPool[i]; e->id=i; return e; } static int idOf(E*e){ if(!e) return -1; for(int i=0;i<16;i++) if((char*)e==gPool[i]) return i; sym_fail("a pointer that was never written is returned"); }
  ~E(){ gDel[((char*)this-gPool[0])/16]++; } static void operator delete(void*){} };
static int gK[2]; static void keys(){ gK[0]=sym<int32_t>("key0"); gK[1]=sym<int32_t>("key1"); SYM_ASSUME(gK[0]!=gK[1]); }
typedef InterthreadMap<int,E> Map; static Map*gM;
enum { WRITE, READNB, GETNB, REMOVE, SIZE, READT, GETT, NOPS };
struct Ev { int op,key,val,got; unsigned long before; }; static Ev gE[8]; static int gN;
static E*gV[8];
static void perform(int i){ Ev&v=gE[i]; int k=gK[v.key]; v.before=env_marks(); v.got=-1; switch(v.op){
  case WRITE: gM->write(k,gV[i]); break; case READNB: v.got=E::idOf(gM->readNoBlock(k)); break; case READT: v.got=E::idOf(gM->read(k,50u)); break;
  case GETNB: { E*e=0; bool b=gM->getNoBlock(k,e); SYM_ASSERT(b==(e!=0),"a get says whether it found the key"); v.got=E::idOf(e); break; } case GETT: { E*e=0; bool b=gM->get(k,e,50u); SYM_ASSERT(b==(e!=0),"a get says whether it found the key"); v.got=E::idOf(e); break; }
  case REMOVE: v.got=gM->remove(k); break; case SIZE: v.got=gM->size(); break; } env_mark(i); }
// is there an order of the operations, consistent with real time, that a plain map would answer in this way, ending in the final state?
static int gFin[2];
static bool lin(unsigned done,int*m,unsigned dead){ bool all=true; for(int i=0;i<gN;i++) if(!(done>>i&1)){ all=false; bool first=true; for(int j=0;j<gN;j++) if(j!=i&&!(done>>j&1)&&(gE[i].before>>j&1)) first=false; if(!first) continue;
    Ev&v=gE[i]; int s=m[v.key]; int n[2]={m[0],m[1]}; bool ok=true; unsigned d=dead; switch(v.op){ case WRITE: if(s>=0) d|=1u<<s; n[v.key]=v.val; break; case READNB: case READT: ok=v.got==s; break; case GETNB: case GETT: ok=v.got==s; n[v.key]=-1; break; case REMOVE: ok=v.got==(s>=0); if(s>=0) d|=1u<<s; n[v.key]=-1; break; case SIZE: ok=v.got==(m[0]>=0)+(m[1]>=0); break; }
    if(ok&&lin(done|1u<<i,n,d)) return true; }
  if(all){ if(m[0]!=gFin[0]||m[1]!=gFin[1]) return false; for(int k=0;k<gUsed;k++) if(gDel[k]!=(int)(dead>>k&1)) return false; return true; } return false; }
static void*thr(void*a){ for(long x=(long)a;x;x>>=4) perform((int)(x&15)-1); return 0; }
static void mkEv(int i,int op){ gE[i].op=op; gE[i].key=op==SIZE?0:sym_choice(2,"key"); gE[i].val=-1; if(op==WRITE){ gV[i]=E::make(); gE[i].val=E::idOf(gV[i]); } }
static void run(const long*prog,int nt,int n){ gN=n; int init[2]={-1,-1}; { Map m; gM=&m; if(sym_choice(2,"held")){ E*e=E::make(); init[0]=E::idOf(e); m.write(gK[0],e); }
    Thread t[3]; for(int i=0;i<nt;i++) t[i].start(thr,(void*)prog[i]); for(int i=0;i<nt;i++) t[i].join(); gFin[0]=E::idOf(m.readNoBlock(gK[0])); gFin[1]=E::idOf(m.readNoBlock(gK[1])); SYM_ASSERT(m.size()==(unsigned)((gFin[0]>=0)+(gFin[1]>=0)),"size is the number of keys held");
    SYM_ASSERT(lin(0,init,0),"the operations take effect one at a time as on a plain map, and exactly the replaced and removed values are deleted"); }
  for(int i=0;i<n;i++) if(gE[i].op==GETNB||gE[i].op==GETT) if(gE[i].got>=0) delete (E*)gPool[gE[i].got]; for(int k=0;k<gUsed;k++) SYM_ASSERT(gDel[k]==1,"every value is deleted exactly once"); sym_reach("done"); }
static void one(){ keys(); int a=sym_param("a",0),b=sym_param("b",0),c=sym_choice(NOPS,"op"); if(b>c||(a>=READT)+(b>=READT)+(c>=READT)>sym_param("timed",1)) sym_end(); mkEv(0,a); mkEv(1,b); mkEv(2,c); long p[3]={1,2,3}; run(p,3,3); }
static void twoone(){ keys(); mkEv(0,sym_param("a",0)); mkEv(1,sym_choice(NOPS,"op")); mkEv(2,sym_choice(NOPS,"op")); long p[2]={0x21,3}; run(p,2,3); }
static int gGot[2]; static void*rdB(void*){ gGot[0]=E::idOf(gM->read(gK[0])); return 0; } static void*gtB(void*){ E*e=0; SYM_ASSERT(gM->get(gK[1],e),"a blocking get succeeds"); gGot[1]=E::idOf(e); return 0; } static void*wrB(void*a){ long x=(long)a; gM->write(gK[x],gV[x]); gM->write(gK[1-x],gV[1-x]); return 0; }
static void block(){ keys(); env_spurious=sym_param("spur",0); { Map m; gM=&m; gV[0]=E::make(); gV[1]=E::make(); Thread a,b,w; a.start(rdB,0); b.start(gtB,0); w.start(wrB,(void*)(long)sym_choice(2,"first")); a.join(); b.join(); w.join(); SYM_ASSERT(gGot[0]==0&&gGot[1]==1,"a blocking read returns the value of its key"); SYM_ASSERT(m.size()==1&&gDel[0]==0&&gDel[1]==0,"a read keeps the value and a get takes it"); } SYM_ASSERT(gDel[0]==1&&gDel[1]==0,"what the map holds is deleted with it, and nothing else"); sym_reach("done"); }
static void seqp(){ keys(); int n=sym_param("n",4); int64_t live=sym_live_blocks(); int want[16]={0}; int st[2]={-1,-1}; { Map m; for(int i=0;i<n;i++){ int op=sym_choice(8,"op"); int x=op==SIZE?0:sym_choice(2,"key"); int k=gK[x]; switch(op){
    case WRITE: { E*e=E::make(); if(st[x]>=0) want[st[x]]=1; m.write(k,e); st[x]=E::idOf(e); break; } case READNB: SYM_ASSERT(E::idOf(m.readNoBlock(k))==st[x],"a read returns the value of the key"); break; case READT: SYM_ASSERT(E::idOf(m.read(k,20u))==st[x],"a timed read returns the value of the key"); break;
    case GETNB: case GETT: { E*e=0; bool b=op==GETNB?m.getNoBlock(k,e):m.get(k,e,20u); SYM_ASSERT(b==(st[x]>=0)&&E::idOf(e)==st[x],"a get returns the value of the key"); if(b){ want[st[x]]=1; delete e; st[x]=-1; } break; }
    case REMOVE: SYM_ASSERT(m.remove(k)==(st[x]>=0),"removal says whether the key was there"); if(st[x]>=0) want[st[x]]=1; st[x]=-1; break; case SIZE: SYM_ASSERT(m.size()==(unsigned)((st[0]>=0)+(st[1]>=0)),"size is the number of keys held"); break;
    default: if(st[x]>=0){ SYM_ASSERT(E::idOf(m.read(k))==st[x],"a blocking read returns the value of the key"); } }
    for(int j=0;j<gUsed;j++) SYM_ASSERT(gDel[j]==want[j],"exactly the replaced and removed values are deleted"); }
    int c=0; bool ok=true; { ScopedLock l(m.qGetLock()); for(Map::iterator it=m.begin();it!=m.end();++it){ c++; int id=E::idOf(it->second); int x=it->first==gK[0]?0:1; if(id!=st[x]||it->first!=gK[x]) ok=false; } } SYM_ASSERT(ok&&c==(st[0]>=0)+(st[1]>=0),"iteration visits exactly what is held"); for(int x=0;x<2;x++) if(st[x]>=0) want[st[x]]=1; }
  for(int j=0;j<gUsed;j++) SYM_ASSERT(gDel[j]==want[j]&&want[j]==1,"every value is deleted exactly once"); SYM_ASSERT(sym_live_blocks()==live,"nothing is leaked"); sym_reach("done"); }
static void seqv(){ keys(); int n=sym_param("n",4); int64_t live=sym_live_blocks(); bool has[2]={false,false}; int v[2]={0,0}; { InterthreadMap1<int,int> m; for(int i=0;i<n;i++){ int op=sym_choice(6,"op"); int x=sym_choice(2,"key"); int k=gK[x]; switch(op){
    case WRITE: { int w=sym<int32_t>("val"); m.write(k,w); has[x]=true; v[x]=w; break; } case READNB: SYM_ASSERT(m.readNoBlock(k)==(has[x]?v[x]:0),"a read returns the value of the key"); break; case GETNB: { int g=0; SYM_ASSERT(m.getNoBlock(k,g,false)==has[x]&&(!has[x]||g==v[x]),"a get that does not remove returns the value of the key"); break; } case REMOVE: SYM_ASSERT(m.remove(k)==has[x],"removal says whether the key was there"); has[x]=false; break;
    case SIZE: SYM_ASSERT(m.size()==(unsigned)(has[0]+has[1]),"size is the number of keys held"); break; default: { int g=0; SYM_ASSERT(m.get(k,g,20u)==has[x]&&(!has[x]||g==v[x]),"a get returns the value of the key"); has[x]=false; } } } }
  SYM_ASSERT(sym_live_blocks()==live,"nothing is leaked"); sym_reach("done"); }
extern "C" void harness_main(void){ H(one) H(twoone) H(block) H(seqp) H(seqv) sym_fail("unknown case"); }
