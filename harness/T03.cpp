/*SPEC
BOUNDS='any sequence of 4 operations (5 in the thorough tier) among create, copy, assign from a pointer, assign from an object, assign null, self-assign, free and destroy on 3 counted pointers and 2 objects (one of which holds a counted pointer to the other); two or three threads copying, assigning, freeing and destroying their own pointers to one object, every interleaving of the synchronisation operations'
OUTSIDE='more than 32767 pointers to one object (the count is a short); cycles of references; one pointer variable used by two threads at once'
ASSUMES=['log level above DEBUG']
case('seq',n=4,conc=True,reach=['gone','alive'],time=600,qt=20000)
case('seq5',n=5,conc=True,reach=['gone','alive'],time=1500,tier='thorough',f='seq')
case('chain',conc=True,reach=['done'],time=300)
case('vect',conc=True,reach=['done'],time=300)
case('many',n=40,conc=True,reach=['done'],time=300)
OPS=['copy','assign','object','free','null','count']
for a in range(6):
  for b in range(a,6): case('conc.%s.%s'%(OPS[a],OPS[b]),a=a,b=b,conc=True,reach=['done'],time=400,f='conc')
case('conc3',conc=True,reach=['done'],time=600)
case('lastrace',conc=True,reach=['done'],time=300)
*/
#include "symx.h"
#include "env.h"
#include "Utils.h"
#include "Configuration.h"
ConfigurationTable gConfig;
static int gDead[4],gLive; struct Obj; typedef RefCntPointer<Obj> P;
struct Obj : public RefCntBase { int id; uint32_t tag; P next; Obj(int i,uint32_t t):id(i),tag(t){ gLive++; } ~Obj(){ SYM_ASSERT(!gDead[id],"destroyed once"); gDead[id]++; gLive--; tag=0; } };
static uint32_t gTag[4];
// model: which object each pointer refers to (-1 none), and whether object 0 refers to object 1
static void check(P**p,int*m,int np,Obj**o,int link){ for(int k=0;k<2;k++){ int c=0; for(int i=0;i<np;i++) c+=p[i]&&m[i]==k; int viaLink=k==1&&link; if(k==0&&c==0) link=link; c+=viaLink; if(o[k]){ SYM_ASSERT((gDead[k]==1)==(c==0),"an object lives exactly as long as a pointer refers to it"); if(c){ SYM_ASSERT(o[k]->getRefCnt()==c,"the count is the number of pointers"); SYM_ASSERT(o[k]->tag==gTag[k],"the object is intact"); } } }
  for(int i=0;i<np;i++) if(p[i]){ SYM_ASSERT(p[i]->self()==(m[i]<0?0:o[m[i]]),"a pointer refers to what was assigned"); SYM_ASSERT(p[i]->isNULL()==(m[i]<0),"null"); if(m[i]>=0){ SYM_ASSERT((*p[i])->tag==gTag[m[i]]&&(**p[i]).id==m[i],"dereference"); for(int j=0;j<np;j++) if(p[j]){ SYM_ASSERT((*p[i]==*p[j])==(m[i]==m[j])&&(*p[i]!=*p[j])==(m[i]!=m[j]),"comparison"); SYM_ASSERT((*p[i]==o[m[i]])&&!(*p[i]!=o[m[i]]),"comparison"); } } } }
static const int NP=3;
static void seq(){ int n=sym_param("n",4); int64_t l0=sym_live_blocks(); Obj*o[2]; int m[NP]; P*p[NP]={0,0,0}; for(int i=0;i<2;i++) gTag[i]=sym<uint32_t>("tag"); o[0]=new Obj(0,gTag[0]); o[1]=new Obj(1,gTag[1]); int link=sym_choice(2,"link"); if(link) o[0]->next=o[1]; p[0]=new P(o[0]); m[0]=0; p[1]=new P(o[1]); m[1]=1; check(p,m,NP,o,link);
  for(int s=0;s<n;s++){ int i=sym_choice(NP,"ptr"); int was[2]; for(int k=0;k<2;k++) was[k]=!gDead[k];
    if(!p[i]){ switch(sym_choice(4,"make")){ case 0: p[i]=new P(); m[i]=-1; break; case 1: { int j=sym_choice(NP,"from"); SYM_ASSUME(p[j]!=0); p[i]=new P(*p[j]); m[i]=m[j]; break; } case 2: { int j=sym_choice(NP,"from"); SYM_ASSUME(p[j]!=0); const P&c=*p[j]; p[i]=new P(c); m[i]=m[j]; break; } default: { int k=sym_choice(2,"obj"); SYM_ASSUME(was[k]); p[i]=new P(o[k]); m[i]=k; } } }
    else switch(sym_choice(5,"op")){ case 0: { int j=sym_choice(NP,"from"); SYM_ASSUME(p[j]!=0); *p[i]=*p[j]; m[i]=m[j]; break; } case 1: { int k=sym_choice(2,"obj"); SYM_ASSUME(was[k]); *p[i]=o[k]; m[i]=k; break; } case 2: *p[i]=(Obj*)0; m[i]=-1; break; case 3: p[i]->free(); m[i]=-1; break; default: delete p[i]; p[i]=0; }
    int c0=0; for(int j=0;j<NP;j++) c0+=p[j]&&m[j]==0; if(!c0) link=0; check(p,m,NP,o,link); }
  sym_reach(gLive?"alive":"gone"); for(int i=0;i<NP;i++) delete p[i]; SYM_ASSERT(gDead[0]==1&&gDead[1]==1&&gLive==0,"the last pointer takes its object along"); SYM_ASSERT(sym_live_blocks()==l0,"nothing leaks"); }
// a pointer reassigned from within the object it is about to drop; chains go away together
static void chain(){ int64_t l0=sym_live_blocks(); int n=3; { P head; for(int i=n-1;i>=0;i--){ gTag[i]=sym<uint32_t>("tag"); Obj*x=new Obj(i,gTag[i]); x->next=head; head=x; } for(int i=0;i<n;i++){ SYM_ASSERT(head->id==i&&head->tag==gTag[i],"walks the chain"); SYM_ASSERT(head->getRefCnt()==1,"count"); head=head->next; SYM_ASSERT(gDead[i]==1,"the dropped object is gone"); } SYM_ASSERT(head.isNULL(),"end"); } SYM_ASSERT(sym_live_blocks()==l0&&gLive==0,"nothing leaks"); sym_reach("done"); }
static P byValue(P x){ return x; }
static void vect(){ int64_t l0=sym_live_blocks(); { gTag[0]=sym<uint32_t>("tag"); P a=new Obj(0,gTag[0]); { std::vector<P> v; int n=1+sym_choice(3,"n"); for(int i=0;i<n;i++) v.push_back(a); SYM_ASSERT(a->getRefCnt()==n+1,"each element counts"); v.erase(v.begin()+sym_choice(n,"at")); SYM_ASSERT(a->getRefCnt()==n,"each element counts"); P b=byValue(a); SYM_ASSERT(b==a&&a->getRefCnt()==n+1,"passed by value"); a=a; SYM_ASSERT(a->getRefCnt()==n+1,"self assignment"); a=a.self(); SYM_ASSERT(a->getRefCnt()==n+1,"self assignment"); } SYM_ASSERT(a->getRefCnt()==1&&!gDead[0]&&a->tag==gTag[0],"only one left"); } SYM_ASSERT(gDead[0]==1&&sym_live_blocks()==l0,"gone"); sym_reach("done"); }
static void many(){ int n=sym_param("n",40); gTag[0]=sym<uint32_t>("tag"); { P a(new Obj(0,gTag[0])); P v[64]; for(int i=0;i<n;i++){ v[i]=a; SYM_ASSERT(a->getRefCnt()==i+2,"count"); } a.free(); SYM_ASSERT(!gDead[0],"alive"); for(int i=0;i<n;i++){ SYM_ASSERT(v[i]->getRefCnt()==n-i&&v[i]->tag==gTag[0],"count"); v[i].free(); } SYM_ASSERT(gDead[0]==1,"gone with the last"); } sym_reach("done"); }
static P*gP[3]; static Obj*gO; static int gOp[3];
static void act(P*p,int op){ SYM_ASSERT((*p)->tag==gTag[0],"the object is intact while referred to"); switch(op){ case 0: { P q(*p); SYM_ASSERT(q->tag==gTag[0],"intact"); break; } case 1: { P q; q=*p; p->free(); SYM_ASSERT(q->tag==gTag[0],"intact"); break; } case 2: { P q; q=p->self(); *p=(Obj*)0; SYM_ASSERT(q->tag==gTag[0],"intact"); break; } case 3: { P q(*p); q.free(); SYM_ASSERT(q.isNULL(),"freed"); break; } case 4: { P q(*p); *p=(Obj*)0; SYM_ASSERT(!gDead[0]&&q->tag==gTag[0],"intact"); break; } default: { int c=(*p)->getRefCnt(); SYM_ASSERT(c>=1&&c<=6,"the count is between what can exist"); } } }
static void*user(void*a){ long k=(long)a; act(gP[k],gOp[k]); delete gP[k]; return 0; }
static void runT(int n){ int64_t l0=sym_live_blocks(); gTag[0]=sym<uint32_t>("tag"); gO=new Obj(0,gTag[0]); for(int i=0;i<n;i++) gP[i]=new P(gO); { Thread t[3]; for(long i=1;i<n;i++) t[i].start(user,(void*)i); user(0); for(int i=1;i<n;i++) t[i].join(); } SYM_ASSERT(gDead[0]==1,"destroyed exactly once, with its last pointer"); SYM_ASSERT(sym_live_blocks()==l0,"nothing leaks"); sym_reach("done"); }
static void conc(){ gOp[0]=sym_param("a",0); gOp[1]=sym_param("b",0); runT(2); }
static void conc3(){ gOp[0]=sym_choice(2,"op")*3; gOp[1]=1; gOp[2]=5; env_preempt=4; runT(3); }
static void*drop(void*a){ delete gP[(long)a]; return 0; }
static void lastrace(){ int64_t l0=0; gTag[0]=1; gO=new Obj(0,1); for(int i=0;i<2;i++) gP[i]=new P(gO); { Thread t; t.start(drop,(void*)1); drop(0); t.join(); } SYM_ASSERT(gDead[0]==1,"destroyed exactly once"); sym_reach("done"); }
extern "C" void harness_main(void){ { P w(new Obj(3,0)); P x(w); x.free(); w=(Obj*)0; } H(seq) H(chain) H(vect) H(many) H(conc) H(conc3) H(lastrace) sym_fail("unknown case"); }
