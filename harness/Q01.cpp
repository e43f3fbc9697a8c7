/*SPEC
BOUNDS='every sequence of up to 8 operations (pointer FIFO, single-linked list) or 6 operations (pointer list) on each container, with arbitrary element sizes'
OUTSIDE='longer sequences; copying a container'
case('fifo',n=8,reach=['done'],time=600)
case('slist',n=8,reach=['done'],time=600)
case('ptrlist',n=6,reach=['done'],time=600)
case('fifo.t',n=11,reach=['done'],time=900,tier='thorough')
case('slist.t',n=10,reach=['done'],time=900,tier='thorough')
case('ptrlist.t',n=8,reach=['done'],time=900,tier='thorough')
*/
#include "symx.h"
#include "Interthread.h"
#include "Configuration.h"
ConfigurationTable gConfig;
template<class T> struct Seq { T a[64]; int h=32,t=32; int n()const{ return t-h; } void back(T v){ a[t++]=v; } void front(T v){ a[--h]=v; } T popf(){ return a[h++]; } T popb(){ return a[--t]; } };
static void fifo(){ int n=sym_param("n",8); int64_t live=sym_live_blocks(); { PointerFIFO f; Seq<void*> m; int cells[16];
  for(int i=0;i<n;i++){ SYM_ASSERT(f.size()==(unsigned)m.n(),"size is the number held"); SYM_ASSERT(f.front()==(m.n()?m.a[m.h]:0),"front is the next element or nothing");
    switch(sym_choice(3,"op")){ case 0: f.put(&cells[i]); m.back(&cells[i]); break; case 1: f.push_front(&cells[i]); m.front(&cells[i]); break; default: { void*g=f.get(); SYM_ASSERT(g==(m.n()?m.popf():0),"elements come out in order, nothing when empty"); } } }
  if(sym_choice(2,"drain")){ while(m.n()) SYM_ASSERT(f.get()==m.popf(),"elements come out in order"); SYM_ASSERT(f.get()==0&&f.size()==0&&f.front()==0,"an empty queue returns nothing"); f.put(&cells[0]); SYM_ASSERT(f.get()==&cells[0]&&f.size()==0,"a drained queue can be used again"); } }
  SYM_ASSERT(sym_live_blocks()==live,"no node is leaked"); sym_reach("done"); }
struct Nd : public SingleLinkListNode { unsigned sz; Nd*next(){ return (Nd*)mNext; } void setNext(Nd*p){ mNext=p; } unsigned size(){ return sz; } };
static void slist(){ int n=sym_param("n",8); SingleLinkList<Nd> l; Seq<Nd*> m; Nd nd[16]; Seq<Nd*> fr; for(int i=0;i<n;i++){ nd[i].sz=sym<unsigned>("size"); fr.back(&nd[i]); }
  for(int i=0;i<n;i++){ unsigned tot=0; Nd*p=l.front(); int k=0; for(;p&&k<m.n();k++,p=p->next()){ SYM_ASSERT(p==m.a[m.h+k],"iteration yields the elements in order"); tot+=p->sz; } SYM_ASSERT(p==0&&k==m.n(),"iteration yields exactly the contents"); SYM_ASSERT(l.size()==(unsigned)m.n(),"size is the number held"); SYM_ASSERT(l.totalSize()==tot,"total size is the sum of the sizes held"); SYM_ASSERT(l.front()==(m.n()?m.a[m.h]:0)&&l.back()==(m.n()?m.a[m.t-1]:0),"front and back");
    switch(sym_choice(4,"op")){ case 0: { Nd*x=fr.popf(); l.push_back(x); m.back(x); break; } case 1: { Nd*x=fr.popf(); l.push_front(x); m.front(x); break; } case 2: { Nd*x=fr.popf(); l.put(x); m.back(x); break; }
      default: { Nd*g=(i&1)?l.pop_front():(Nd*)l.get(); Nd*w=m.n()?m.popf():0; SYM_ASSERT(g==w,"elements come out in order, nothing when empty"); if(g){ SYM_ASSERT(g->next()==0,"a removed element is unlinked"); fr.back(g); } } } }
  while(m.n()) SYM_ASSERT(l.pop_front()==m.popf(),"elements come out in order"); SYM_ASSERT(l.pop_front()==0&&l.size()==0&&l.totalSize()==0&&!l.front()&&!l.back(),"an empty list returns nothing"); sym_reach("done"); }
static void ptrlist(){ int n=sym_param("n",6); int64_t live=sym_live_blocks(); { PtrList<int> l; Seq<int*> m; int cells[16];
  for(int i=0;i<n;i++){ int k=0; for(PtrList<int>::iter_t it=l.begin();it!=l.end();++it){ SYM_ASSERT(k<m.n()&&*it==m.a[m.h+k],"iteration yields the elements in order"); k++; } SYM_ASSERT(k==m.n()&&l.size()==(size_t)k,"iteration yields exactly the contents");
    switch(sym_choice(5,"op")){ case 0: l.put(&cells[i]); m.back(&cells[i]); break; case 1: l.push_front(&cells[i]); m.front(&cells[i]); break; case 2: SYM_ASSERT(l.get()==(m.n()?m.popf():0),"get"); break; case 3: SYM_ASSERT(l.pop_frontr()==(m.n()?m.popf():0),"pop_frontr"); break; default: SYM_ASSERT(l.pop_backr()==(m.n()?m.popb():0),"pop_backr"); } } }
  SYM_ASSERT(sym_live_blocks()==live,"no node is leaked"); sym_reach("done"); }
extern "C" void harness_main(void){ H(fifo) H(slist) H(ptrlist) sym_fail("unknown case"); }
