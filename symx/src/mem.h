#pragma once
#include "expr.h"
#include <vector>
#include <cstdlib>
#include <cstring>
enum ObjKind : uint8_t { K_GLOBAL, K_STACK, K_NEW, K_NEWARR, K_MALLOC, K_EXN, K_CODE };
struct Obj {
  int rc=1; uint64_t addr; uint32_t size; ObjKind kind; bool ro=false, freed=false, model=false; uint32_t site=0; int thr=0;
  uint8_t* data=nullptr; E* sym=nullptr; uint64_t hash=0; bool hv=false; uint32_t nsym=0;
  Obj(uint64_t a,uint32_t s,ObjKind k):addr(a),size(s),kind(k){ data=(uint8_t*)malloc(s?s:1); }
  Obj(const Obj&o):addr(o.addr),size(o.size),kind(o.kind),ro(o.ro),freed(o.freed),model(o.model),site(o.site),thr(o.thr),hash(o.hash),hv(o.hv),nsym(o.nsym){ if(o.data){ data=(uint8_t*)malloc(size?size:1); memcpy(data,o.data,size);} if(o.sym){ sym=(E*)malloc(size*sizeof(E)); memcpy(sym,o.sym,size*sizeof(E)); } }
  ~Obj(){ ::free(data); ::free(sym); }
  void dropData(){ ::free(data); ::free(sym); data=nullptr; sym=nullptr; hv=false; }
  bool isSym(uint32_t i) const { return sym&&sym[i]; }
  E byteE(uint32_t i) const { return isSym(i)?sym[i]:mkConst(data[i],8); }
  void setC(uint32_t i,uint8_t v){ data[i]=v; if(sym&&sym[i]){ sym[i]=nullptr; nsym--; } }
  void setE(uint32_t i,E e){ if(e->isC()){ setC(i,(uint8_t)e->c); return; } if(!sym){ sym=(E*)calloc(size,sizeof(E)); } if(!sym[i]) nsym++; sym[i]=e; }
};
static inline void objRel(Obj*o){ if(--o->rc==0) delete o; }
struct Chunk { int rc=1; std::vector<std::pair<uint64_t,Obj*>> v; };
struct MemMap {
  std::vector<Chunk*> ch;
  MemMap(){}
  MemMap(const MemMap&o):ch(o.ch){ for(auto*c:ch) c->rc++; }
  MemMap& operator=(const MemMap&)=delete;
  ~MemMap(){ for(auto*c:ch) rel(c); }
  static void rel(Chunk*c){ if(--c->rc==0){ for(auto&p:c->v) objRel(p.second); delete c; } }
  // index of last chunk with first addr <= a ; -1 if none
  int chunkFor(uint64_t a) const { int lo=0,hi=(int)ch.size()-1,r=-1; while(lo<=hi){ int m=(lo+hi)/2; if(ch[m]->v[0].first<=a){ r=m; lo=m+1; } else hi=m-1; } return r; }
  static int idxIn(const Chunk*c,uint64_t a){ int lo=0,hi=(int)c->v.size()-1,r=-1; while(lo<=hi){ int m=(lo+hi)/2; if(c->v[m].first<=a){ r=m; lo=m+1; } else hi=m-1; } return r; }
  // object with largest base <= a
  Obj* floorObj(uint64_t a) const { int c=chunkFor(a); if(c<0) return nullptr; int i=idxIn(ch[c],a); return i<0?nullptr:ch[c]->v[i].second; }
  Obj* find(uint64_t a) const { Obj*o=floorObj(a); if(o&&a-o->addr<=o->size) return o; return nullptr; } // one past end allowed
  void own(int c){ Chunk*k=ch[c]; if(k->rc>1){ Chunk*n=new Chunk; n->v=k->v; for(auto&p:n->v) p.second->rc++; k->rc--; ch[c]=n; } }
  Obj* writable(uint64_t base){ int c=chunkFor(base); own(c); int i=idxIn(ch[c],base); Obj*&o=ch[c]->v[i].second; if(o->rc>1){ Obj*n=new Obj(*o); n->rc=1; o->rc--; o=n; } o->hv=false; return o; }
  void insert(Obj*o){
    int c=chunkFor(o->addr); if(c<0){ if(ch.empty()){ Chunk*n=new Chunk; n->v.push_back({o->addr,o}); ch.push_back(n); return; } c=0; }
    own(c); Chunk*k=ch[c]; int i=idxIn(k,o->addr);
    if(i>=0&&k->v[i].first==o->addr){ objRel(k->v[i].second); k->v[i].second=o; return; }
    k->v.insert(k->v.begin()+i+1,{o->addr,o});
    if(k->v.size()>96){ Chunk*n=new Chunk; n->v.assign(k->v.begin()+48,k->v.end()); k->v.resize(48); ch.insert(ch.begin()+c+1,n); }
  }
  void erase(uint64_t base){ int c=chunkFor(base); if(c<0) return; own(c); Chunk*k=ch[c]; int i=idxIn(k,base); if(i<0||k->v[i].first!=base) return; objRel(k->v[i].second); k->v.erase(k->v.begin()+i); if(k->v.empty()){ delete k; ch.erase(ch.begin()+c); } }
};
