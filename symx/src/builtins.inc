// ---------------------------------------------------------------- builtins
#define BI(name) static R bi_##name(State*&s,KInst&ki,Val*a,int n,Val&ret)
static R cz(State*s,Val&v,unsigned w,const char*why){ forkConcretize(s,v,w,why); return NEXT; }
BI(malloc){ cz(s,a[0],64,"malloc size"); if(a[0].c>(256ull<<20)){ ret=VC(0); return NEXT; } ret=VC(heapAlloc(s,a[0].c,K_MALLOC)); return NEXT; }
BI(calloc){ cz(s,a[0],64,"calloc"); cz(s,a[1],64,"calloc"); ret=VC(heapAlloc(s,a[0].c*a[1].c,K_MALLOC,0)); return NEXT; }
static R allocN(State*&s,Val*a,Val&ret,ObjKind k){ cz(s,a[0],64,"new size"); if(a[0].c>(256ull<<20)) return fail(s,"huge-alloc","operator new of "+std::to_string(a[0].c)+" bytes"); ret=VC(heapAlloc(s,a[0].c,k)); return NEXT; }
BI(new){ return allocN(s,a,ret,K_NEW); } BI(newarr){ return allocN(s,a,ret,K_NEWARR); }
static R freeK(State*&s,Val*a,ObjKind k){ cz(s,a[0],64,"free"); uint64_t p=a[0].c; if(!p) return NEXT; Obj*o=s->mem.find(p); if(!o||o->addr!=p||o->kind<K_NEW||o->kind>K_MALLOC) return fail(s,"bad-free","free of pointer not from an allocation: "+ptrDesc(s,p)); if(o->freed) return fail(s,"double-free","double free of "+ptrDesc(s,p)); if(o->kind!=k) return fail(s,"alloc-mismatch","mismatched deallocation of "+ptrDesc(s,p)); o=s->mem.writable(p); o->freed=true; o->dropData(); s->liveBlocks--; return NEXT; }
BI(free){ return freeK(s,a,K_MALLOC); } BI(delete){ return freeK(s,a,K_NEW); } BI(deletearr){ return freeK(s,a,K_NEWARR); }
BI(realloc){ cz(s,a[0],64,"realloc"); cz(s,a[1],64,"realloc"); if(!a[0].c){ ret=VC(heapAlloc(s,a[1].c,K_MALLOC)); return NEXT; } Obj*o=s->mem.find(a[0].c); if(!o||o->addr!=a[0].c||o->freed||o->kind!=K_MALLOC) return fail(s,"bad-free","realloc of bad pointer"); uint64_t m=std::min<uint64_t>(o->size,a[1].c); uint64_t na=heapAlloc(s,a[1].c,K_MALLOC); R r=memcopy(s,ki,VC(na),a[0],m); if(r!=NEXT) return r; Val p[1]={a[0]}; freeK(s,p,K_MALLOC); ret=VC(na); return NEXT; }
BI(memcpy){ cz(s,a[2],64,"memcpy len"); R r=memcopy(s,ki,a[0],a[1],a[2].c,false); ret=a[0]; return r; }
BI(memmove){ cz(s,a[2],64,"memcpy len"); R r=memcopy(s,ki,a[0],a[1],a[2].c); ret=a[0]; return r; }
BI(memset){ cz(s,a[2],64,"memset len"); R r=memfill(s,ki,a[0],a[1],a[2].c); ret=a[0]; return r; }
static E lowerE(E c){ E up=mkAndB(mkNot(mkUlt(c,mkConst('A',8))),mkUlt(c,mkConst('Z'+1,8))); return mkIte(up,mkBin(O_ADD,c,mkConst(32,8)),c); }
static R cmpBytes(State*&s,KInst&ki,Val*a,bool hasN,bool str,bool fold,Val&ret){
  cz(s,a[0],64,"compare pointer"); cz(s,a[1],64,"compare pointer"); if(hasN) cz(s,a[2],64,"compare length"); uint64_t n=hasN?a[2].c:~0ull; if(n==0){ ret=VC(0); return NEXT; }
  Obj*o1=s->mem.find(a[0].c),*o2=s->mem.find(a[1].c); if(!o1||o1->freed||!o2||o2->freed) return fail(s,o1&&o2?"use-after-free":"invalid-read",std::string(str?"string":"memory")+" comparison of "+ptrDesc(s,(!o1||o1->freed)?a[0].c:a[1].c));
  uint64_t f1=a[0].c-o1->addr,f2=a[1].c-o2->addr; uint64_t av=std::min<uint64_t>(o1->size-f1,o2->size-f2); uint64_t m=std::min(av,n); if(!str&&av<n) return fail(s,"invalid-read","memcmp of "+std::to_string(n)+" bytes reads beyond "+ptrDesc(s,(o1->size-f1<n)?a[0].c:a[1].c));
  if(optRace){ recAcc(s,ki,a[0].c,std::min<uint64_t>(m,64),false); recAcc(s,ki,a[1].c,std::min<uint64_t>(m,64),false); }
  // forward scan to find stop
  std::vector<E> x,y; bool stopped=false; for(uint64_t i=0;i<m;i++){ E p=o1->byteE(f1+i),q=o2->byteE(f2+i); if(fold){ p=lowerE(p); q=lowerE(q); } x.push_back(p); y.push_back(q); E eq=mkEq(p,q); if(eq->isC()&&!eq->c){ stopped=true; break; } if(str&&((p->isC()&&!p->c)||(q->isC()&&!q->c))){ stopped=true; break; } }
  E r=mkConst(0,32);
  if(str&&!stopped&&m<n){ // ran out of object: check feasibility
    E c=mkConst(1,1); for(size_t i=0;i<x.size();i++) c=mkAndB(c,mkAndB(mkEq(x[i],y[i]),mkNot(mkEq(x[i],mkConst(0,8))))); ModelP mm; if(mayBe(s,c,&mm)){ if(c->isC()) return fail(s,"invalid-read","string comparison runs past the end of "+ptrDesc(s,o1->size-f1<=o2->size-f2?a[0].c:a[1].c)); State*o; bool v=branchOn(s,c,o); if(v){ if(o) std::swap(s,o); else return fail(s,"invalid-read","string comparison runs past the end"); } if(o){ report(o,"invalid-read","string comparison runs past the end of its object"); endPath(o,"violation"); } } }
  for(int i=(int)x.size()-1;i>=0;i--){ E ne=mkIte(mkUlt(x[i],y[i]),mkConst(~(u128)0,32),mkConst(1,32)); E eqv=str?mkIte(mkEq(x[i],mkConst(0,8)),mkConst(0,32),r):r; r=mkIte(mkEq(x[i],y[i]),eqv,ne); }
  ret=fromE(r); return NEXT; }
BI(memcmp){ return cmpBytes(s,ki,a,true,false,false,ret); } BI(strcmp){ return cmpBytes(s,ki,a,false,true,false,ret); } BI(strncmp){ return cmpBytes(s,ki,a,true,true,false,ret); } BI(strcasecmp){ return cmpBytes(s,ki,a,false,true,true,ret); } BI(strncasecmp){ return cmpBytes(s,ki,a,true,true,true,ret); }
BI(strlen){ cz(s,a[0],64,"strlen"); Obj*o=s->mem.find(a[0].c); if(!o||o->freed) return fail(s,o?"use-after-free":"invalid-read","strlen of "+ptrDesc(s,a[0].c)); uint64_t f=a[0].c-o->addr; if(optRace) recAcc(s,ki,a[0].c,1,false);
  for(uint64_t i=f;i<o->size;i++){ E b=o->byteE(i); if(b->isC()){ if(!b->c){ ret=VC(i-f); return NEXT; } continue; } E z=mkEq(b,mkConst(0,8)); State*ot; bool v=branchOn(s,z,ot); if(ot) work.push_back(ot); if(v){ ret=VC(i-f); return NEXT; } o=s->mem.find(a[0].c); }
  return fail(s,"invalid-read","strlen runs past the end of "+ptrDesc(s,a[0].c)); }
// --- exceptions
BI(cxa_alloc_exn){ cz(s,a[0],64,"exception size"); uint64_t p=heapAlloc(s,a[0].c,K_EXN); ret=VC(p); return NEXT; }
BI(cxa_free_exn){ cz(s,a[0],64,"cxa_free_exn");  Obj*o=s->mem.find(a[0].c); if(o){ s->mem.erase(o->addr); s->liveBlocks--; } return NEXT; }
BI(cxa_throw){ cz(s,a[0],64,"cxa_throw"); cz(s,a[1],64,"cxa_throw"); cz(s,a[2],64,"cxa_throw");  ExnInfo e; e.ti=a[1].c; e.dtor=a[2].c; e.handlers=0; e.adj=a[0].c; e.rethrown=false; s->exn[a[0].c]=e; return unwind(s,a[0].c); }
BI(cxa_begin_catch){ cz(s,a[0],64,"cxa_begin_catch");  auto it=s->exn.find(a[0].c); if(it==s->exn.end()) return unsupported(s,"begin_catch of foreign exception"); it->second.handlers++; s->T().caught.push_back(a[0].c); ret=VC(it->second.adj); return NEXT; }
BI(cxa_get_exception_ptr){ cz(s,a[0],64,"cxa_get_exception_ptr");  auto it=s->exn.find(a[0].c); ret=VC(it==s->exn.end()?a[0].c:it->second.adj); return NEXT; }
BI(cxa_end_catch){ auto&c=s->T().caught; if(c.empty()) return unsupported(s,"end_catch without catch"); uint64_t x=c.back(); c.pop_back(); auto&e=s->exn[x]; e.handlers--; if(e.handlers<=0&&!e.rethrown){ if(e.dtor&&faddr.count(e.dtor)&&!faddr[e.dtor]->isDeclaration()){ // run destructor then free, then continue after this call
      Frame*f=wtop(s); (void)f; KFunc*k=getKF(faddr[e.dtor]); Val arg=VC(x); pushFrame(s,k,&arg,1); s->top()->freeExn=x; return JUMPED; }
    s->exn.erase(x); Obj*o=s->mem.find(x); if(o){ s->mem.erase(o->addr); s->liveBlocks--; } } return NEXT; }
BI(cxa_rethrow){ auto&c=s->T().caught; if(c.empty()) return fail(s,"terminate","rethrow with no current exception"); uint64_t x=c.back(); s->exn[x].rethrown=true; R r=unwind(s,x); if(s&&s->exn.count(x)) s->exn[x].rethrown=false; return r; }
BI(terminate){ return fail(s,"terminate","std::terminate called"); }
BI(abort){ return doAbort(s,"abort","abort() called",1); }
BI(assert_fail){ return doAbort(s,"assert","assertion failed: "+cstr(s,a[0].c)+" at "+cstr(s,a[1].c)+":"+std::to_string(a[2].c),1); }
BI(exit){ cz(s,a[0],32,"exit code"); return doAbort(s,"exit","exit("+std::to_string((int)a[0].c)+") called",2); }
BI(pure_virtual){ return fail(s,"pure-virtual","pure virtual function called"); }
BI(guard_acquire){ Val v; R r=loadScalar(s,ki,a[0],8,v); if(r!=NEXT) return r; ret=VC(v.e?0:(v.c==0)); return NEXT; }
BI(guard_release){ return storeScalar(s,ki,a[0],VC(1),8); }
BI(nop){ ret=VC(0); return NEXT; }
BI(nop1){ ret=VC(1); return NEXT; }
BI(atexit){ ret=VC(0); return NEXT; }
BI(dynamic_cast){ cz(s,a[0],64,"dynamic_cast"); cz(s,a[2],64,"dynamic_cast");  uint64_t src=a[0].c,dt=a[2].c; if(!src){ ret=VC(0); return NEXT; } uint64_t vp=rd64(s,src); int64_t ott=(int64_t)rd64(s,vp-16); uint64_t ti=rd64(s,vp-8); uint64_t off=0; if(tiDerives(s,ti,dt,off)) ret=VC(src+ott+off); else ret=VC(0); return NEXT; }
BI(errno_loc){ uint64_t key=0xE44ull^((uint64_t)s->cur<<56); auto it=s->tls.find(key); if(it==s->tls.end()){ uint64_t x=heapAlloc(s,4,K_GLOBAL,0); s->liveBlocks--; s->tls[key]=x; it=s->tls.find(key); } ret=VC(it->second); return NEXT; }
// --- symbolic primitives
static E symVar(State*s,const std::string&nm,unsigned w,const char*ann){ unsigned i=newVar(nm,w); return mkVar(i,w); }
static void addInput(State*s,const std::string&nm,unsigned w,const std::vector<E>&v){ auto r=std::make_shared<InputRec>(); r->name=nm; r->w=w; r->vals=v; r->prev=s->inputs; s->inputs=r; }
static std::unordered_map<std::string,std::vector<unsigned>> varPool; // reuse variable ids across sibling paths: name#occurrence
static unsigned getVarFor(State*s,const std::string&nm,unsigned w){ // occurrence index = number of inputs with this name on path
  unsigned occ=0; for(auto*p=s->inputs.get();p;p=p->prev.get()) if(p->name==nm) occ++; std::string key=nm+"/"+std::to_string(w); auto&v=varPool[key]; while(v.size()<=occ) v.push_back(newVar(nm+"#"+std::to_string(v.size()),w)); return v[occ]; }
BI(sym_uint){ cz(s,a[0],64,"sym_uint"); cz(s,a[1],64,"sym_uint");  std::string nm=cstr(s,a[1].c); unsigned w=a[0].c; E e=mkVar(getVarFor(s,nm,w),w); addInput(s,nm,w,{e}); ret=fromE(w<64?mkZExt(e,64):e); return NEXT; }
BI(sym_bytes){ std::string nm=cstr(s,a[2].c); cz(s,a[1],64,"sym_bytes"); std::vector<E> v; unsigned occ=0; for(auto*p=s->inputs.get();p;p=p->prev.get()) if(p->name==nm) occ++; for(uint64_t i=0;i<a[1].c;i++){ std::string key=nm+"["+std::to_string(i)+"]"; auto&pv=varPool[key]; while(pv.size()<=occ) pv.push_back(newVar(key+"#"+std::to_string(pv.size()),8)); v.push_back(mkVar(pv[occ],8)); }
  if(a[1].c){ Obj*o; Val off; R r=resolve(s,a[0],a[1].c,true,o,off,"sym_bytes"); if(r!=NEXT) return r; o=s->mem.writable(o->addr); for(uint64_t i=0;i<a[1].c;i++) o->setE(off.c+i,v[i]); } addInput(s,nm,8,v); return NEXT; }
BI(sym_choice){ std::string nm=cstr(s,a[1].c); cz(s,a[0],32,"choice bound"); unsigned k=a[0].c; if(k<=1){ ret=VC(0); return NEXT; } unsigned vi=getVarFor(s,nm,32); E e=mkVar(vi,32); addInput(s,nm,32,{e}); 
  // fresh variable ranging over 0..k-1: one successor state per value, each satisfiable by construction
  for(unsigned i=k;i-->0;){ State*t=i==0?s:cloneState(s); auto m=std::make_shared<Model>(); if(t->model) m->v=t->model->v; if(m->v.size()<=vi) m->v.resize(vi+1); m->v[vi]=i; t->model=m; t->pc.push_back(mkEq(e,mkConst(i,32))); if(i){ Frame*f=wtop(t); KInst&k2=f->f->in[f->pc]; if(k2.dest>=0) f->L[k2.dest]=VC(i); if(k2.opc==Instruction::Invoke) jump(t,k2.succ[0]); else f->pc++; work.push_back(t); } }
  ret=VC(0); return NEXT; }
static bool assumeE(State*&s,E c){ if(c->isC()){ if(c->c) return true; nAssumeKilled++; nPaths++; delete s; s=nullptr; return false; }
  if(evalExpr(c,s->model)){ addC(s,c); return true; } ModelP m; if(!solve(s,c,m)){ nAssumeKilled++; delete s; s=nullptr; return false; } addC(s,c); s->model=m; return true; }
static E boolOf(Val v,unsigned w){ E e=toE(v,w); return w==1?e:mkNot(mkEq(e,mkConst(0,w))); }
BI(sym_assume){ if(!assumeE(s,boolOf(a[0],32))) return KILLED; return NEXT; }
BI(sym_assert){ cz(s,a[1],64,"sym_assert");  E c=boolOf(a[0],32); nAsserts++; if(c->isC()){ if(c->c) return NEXT; return fail(s,"property",cstr(s,a[1].c)); } 
  ModelP m; if(mayBe(s,mkNot(c),&m)) report(s,"property",cstr(s,a[1].c),m); if(!assumeE(s,c)) return KILLED; return NEXT; }
BI(sym_fail){ cz(s,a[0],64,"sym_fail");  return fail(s,"property",cstr(s,a[0].c)); }
BI(sym_reach){ cz(s,a[0],64,"sym_reach"); reached[cstr(s,a[0].c)]++; return NEXT; }
BI(sym_end){ endPath(s,"ok"); return KILLED; }
BI(sym_observe){ cz(s,a[0],64,"sym_observe");  auto r=std::make_shared<ObsRec>(); r->name=cstr(s,a[0].c); r->val=toE(a[1],64); r->prev=s->obs; s->obs=r; return NEXT; }
BI(sym_param){ cz(s,a[0],64,"sym_param");  std::string nm=cstr(s,a[0].c); auto it=params.find(nm); if(it==params.end()) { ret=a[1]; } else ret=VC((uint64_t)it->second); return NEXT; }
BI(sym_concretize){ cz(s,a[0],64,"sym_concretize"); ret=a[0]; return NEXT; }
BI(sym_live){ ret=VC((uint64_t)s->liveBlocks); return NEXT; }
BI(sym_try){ cz(s,a[0],64,"sym_try");  auto it=faddr.find(a[0].c); if(it==faddr.end()||it->second->isDeclaration()) return unsupported(s,"sym_try target"); wtop(s); Val arg=a[1]; pushFrame(s,getKF(it->second),&arg,1,true); return JUMPED; }
BI(sym_print){ cz(s,a[0],64,"sym_print");  if(optVerbose){ E e=toE(a[1],64); fprintf(stderr,"PRINT %s %s (model %llu)\n",cstr(s,a[0].c).c_str(),exprStr(e,6).substr(0,300).c_str(),(unsigned long long)evalExpr(e,s->model)); } return NEXT; }
BI(sym_prints){ if(optVerbose){ std::string q; Obj*o=s->mem.find(a[1].c); if(o) for(uint64_t i=a[1].c-o->addr;i<o->size;i++){ u128 b=evalExpr(o->byteE(i),s->model); if(!b) break; q+=(char)b; } fprintf(stderr,"PRINTS %s '%s'\n",cstr(s,a[0].c).c_str(),q.c_str()); } return NEXT; }
BI(is_sym){ ret=VC(a[0].e!=nullptr); return NEXT; }
BI(ite){ ret=iteV(fromE(boolOf(a[0],32)),a[1],a[2],64); return NEXT; }
BI(is_symmem){ cz(s,a[0],64,""); Obj*o=s->mem.find(a[0].c); bool r=false; if(o&&o->sym) for(uint64_t i=0;i<a[1].c&&a[0].c-o->addr+i<o->size;i++) if(o->sym[a[0].c-o->addr+i]) r=true; ret=VC(r); return NEXT; }
// --- host formatting of concrete doubles
BI(fmt_double){ for(int i=0;i<4;i++) if(a[i].e){ if(i==3) return unsupported(s,"formatting a symbolic floating-point value"); cz(s,a[i],64,"fmt"); } double d; memcpy(&d,&a[3].c,8); std::string fm=cstr(s,a[2].c); char b[512]; int k=snprintf(b,sizeof b,fm.c_str(),d); Obj*o; Val off; uint64_t m=std::min<uint64_t>(k+1,a[1].c); if(m){ R r=resolve(s,a[0],m,true,o,off,"fmt_double"); if(r!=NEXT) return r; o=s->mem.writable(o->addr); for(uint64_t i=0;i<m;i++) o->setC(off.c+i,i+1==m?0:b[i]); } ret=VC((uint32_t)k); return NEXT; }
template<double(*FN)(double)> static R m1(State*&s,KInst&ki,Val*a,int n,Val&ret){ if(a[0].e) return unsupported(s,"math function of symbolic value"); double d; memcpy(&d,&a[0].c,8); d=FN(d); memcpy(&ret.c,&d,8); ret.e=nullptr; return NEXT; }
template<double(*FN)(double)> static R m1f(State*&s,KInst&ki,Val*a,int n,Val&ret){ if(a[0].e) return unsupported(s,"math function of symbolic value"); float f; uint32_t x=a[0].c; memcpy(&f,&x,4); f=(float)FN(f); memcpy(&x,&f,4); ret=VC(x); return NEXT; }
template<double(*FN)(double,double)> static R m2(State*&s,KInst&ki,Val*a,int n,Val&ret){ if(a[0].e||a[1].e) return unsupported(s,"math function of symbolic value"); double d,q; memcpy(&d,&a[0].c,8); memcpy(&q,&a[1].c,8); d=FN(d,q); memcpy(&ret.c,&d,8); ret.e=nullptr; return NEXT; }
template<int RM,int W> static R mr(State*&s,KInst&ki,Val*a,int n,Val&ret){ ret=fromE(mkF1(O_FRINT,toE(a[0],W),W,RM)); return NEXT; }
template<int W> static R msqrt(State*&s,KInst&ki,Val*a,int n,Val&ret){ ret=fromE(mkF1(O_FSQRT,toE(a[0],W),W)); return NEXT; }
template<int W> static R mabs(State*&s,KInst&ki,Val*a,int n,Val&ret){ ret=fromE(mkBin(O_AND,toE(a[0],W),mkConst(maskOf(W)>>1,W))); return NEXT; }
template<int W> static R mlround(State*&s,KInst&ki,Val*a,int n,Val&ret){ ret=fromE(mkF1(O_FTOSI,mkF1(O_FRINT,toE(a[0],W),W,1),64)); return NEXT; }
// --- threads (used by the pthread model)
BI(sx_create){ cz(s,a[0],64,"sx_create");  int id=s->thr.size(); if(id>12) return unsupported(s,"too many threads"); auto it=faddr.find(a[0].c); if(it==faddr.end()) return fail(s,"bad-call","thread entry is not a function"); Thread t; t.sp=0x7f0000000000ull+(uint64_t)id*0x10000000ull; t.hp=nextHeapBase+((uint64_t)id<<36); t.vc=s->T().vc; if((int)t.vc.size()<=id) t.vc.resize(id+1); t.vc[id]=1; { auto&v=s->T().vc; if((int)v.size()<=s->cur) v.resize(s->cur+1); v[s->cur]++; } s->thr.push_back(t); int c=s->cur; s->cur=id; Val arg=a[1]; pushFrame(s,getKF(it->second),&arg,1); s->cur=c; ret=VC(id); return NEXT; }
BI(sx_self){ ret=VC(s->cur); return NEXT; }
BI(sx_switch){ cz(s,a[0],32,"switch"); if(a[0].c>=s->thr.size()||s->thr[a[0].c].st.empty()) return fail(s,"engine","switch to bad thread"); Frame*f=wtop(s); KInst&k=f->f->in[f->pc]; if(k.opc==Instruction::Invoke) jump(s,k.succ[0]); else f->pc++; s->cur=a[0].c; s->switches++; return JUMPED; }
BI(sx_lock){ if(optRace) hbAcquire(s,a[0].c); return NEXT; }
BI(sx_unlock){ if(optRace) hbRelease(s,a[0].c); return NEXT; }
static inline uint64_t mix(uint64_t h,uint64_t x){ h^=x+0x9E3779B97F4A7C15ull+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdull; h^=h>>32; return h; }
static uint64_t hashObj(Obj*o){ if(o->hv) return o->hash; uint64_t h=mix(o->addr,o->size); if(o->freed) h=mix(h,77); else { size_t i=0; for(;i+8<=o->size;i+=8){ uint64_t v; memcpy(&v,o->data+i,8); h=(h^v)*0x9FB21C651E98DF25ull; h^=h>>29; } for(;i<o->size;i++) h=mix(h,o->data[i]); if(o->nsym) for(uint32_t j=0;j<o->size;j++) if(o->sym[j]) h=mix(h,((uint64_t)j<<32)|o->sym[j]->id); } o->hash=h; o->hv=true; return h; }
static bool isSchedVar(E c){ if(c->op!=O_EQ||!c->k[1]->isC()&&!c->k[0]->isC()) return false; E v=c->k[0]->op==O_VAR?c->k[0]:c->k[1]; if(v->op!=O_VAR) return false; const std::string&n=varNames[v->aux]; return n.compare(0,6,"sched:")==0; }
// slots that may still be read when execution continues at instruction pc (for a caller: after its call)
static const std::vector<int>& liveAt(KFunc*k,int pc){
  if(k->live.empty()){ int n=k->in.size(),nb=k->bbs.size(); k->live.resize(n+1); std::vector<std::vector<char>> in(nb,std::vector<char>(k->nslots)),bb; std::vector<std::vector<int>> suc(nb); 
    auto endOf=[&](int b){ return b+1<nb?k->bbStart[b+1]:n; }; for(int b=0;b<nb;b++) for(auto*sb:successors(k->bbs[b])) for(int j=0;j<nb;j++) if(k->bbs[j]==sb) suc[b].push_back(j);
    auto flow=[&](int b,bool rec){ std::vector<char> l(k->nslots); for(int q:suc[b]){ for(int i=0;i<k->nslots;i++) l[i]|=in[q][i]; for(int pc=k->bbStart[q];pc<endOf(q)&&k->in[pc].opc==Instruction::PHI;pc++){ auto*ph=cast<PHINode>(k->in[pc].I); int i=ph->getBasicBlockIndex(k->bbs[b]); if(i>=0&&k->in[pc].ops[i]>=0) l[k->in[pc].ops[i]]=1; } }
      for(int pc=endOf(b)-1;pc>=k->bbStart[b];pc--){ KInst&x=k->in[pc]; if(x.dest>=0) l[x.dest]=0; if(rec){ auto&o=k->live[pc]; o.clear(); for(int i=0;i<k->nslots;i++) if(l[i]) o.push_back(i); } if(x.opc!=Instruction::PHI) for(int i=0;i<x.nops;i++) if(x.ops[i]>=0) l[x.ops[i]]=1; } return l; };
    bool ch=true; while(ch){ ch=false; for(int b=nb-1;b>=0;b--){ auto l=flow(b,false); if(l!=in[b]){ in[b]=l; ch=true; } } } for(int b=0;b<nb;b++) flow(b,true); }
  return k->live[pc]; }
static uint64_t hashState(State*s){ uint64_t h=mix(s->cur,s->thr.size()); for(auto&c:s->mem.ch) for(auto&p:c->v) if(!p.second->ro&&!p.second->freed) h=mix(h,hashObj(p.second));
  for(auto&t:s->thr){ h=mix(h,t.st.size()); for(auto*f:t.st){ h=mix(h,(uint64_t)f->f); h=mix(h,f->pc); auto one=[&](int i){ auto&v=f->L[i]; h=mix(h,(v.e?0x1234567ull+v.e->id:v.c)+((uint64_t)i<<40)); }; KInst&ki=f->f->in[f->pc]; if(f==t.st.back()) for(int i=0;i<ki.nops;i++) if(ki.ops[i]>=0) one(ki.ops[i]); if(f==t.st.back()&&f->pc==f->f->bbStart[0]){ for(size_t i=0;i<f->L.size();i++) one(i); } else for(int i:liveAt(f->f,f->pc)) one(i); } for(auto x:t.caught) h=mix(h,x); }
  uint64_t hc=0; for(E c:s->pc) if(!isSchedVar(c)) hc+=c->h*0x9E3779B97F4A7C15ull; h=mix(h,hc); return mix(h,(uint64_t)s->liveBlocks); }
BI(sx_dedup){ nSchedPts++; s->streak.clear(); if(optNoDedup) return NEXT; uint64_t h=mix(hashState(s),a[0].e?a[0].e->id:a[0].c);
  if(!visited.insert(h).second){ nDedup++; delete s; s=nullptr; return KILLED; } return NEXT; }
BI(sx_cycle){ uint64_t h=hashState(s); for(auto x:s->streak) if(x==h) return fail(s,"hang","livelock: the only thread that can run repeats the same state forever"); s->streak.push_back(h); return NEXT; }
BI(sx_nswitch){ ret=VC(s->switches); return NEXT; }
BI(sx_note){ s->note+=cstr(s,a[0].c)+";"; return NEXT; }
BI(sx_steps){ ret=VC(s->steps); return NEXT; }
static void initBuiltins(){
  auto B=[&](const char*n,Handler h){ builtins[n]=h; };
  B("malloc",bi_malloc); B("calloc",bi_calloc); B("realloc",bi_realloc); B("free",bi_free); B("cfree",bi_free);
  for(auto n:{"_Znwm","_ZnwmRKSt9nothrow_t","_ZnwmSt11align_val_t"}) B(n,bi_new); for(auto n:{"_Znam","_ZnamRKSt9nothrow_t","_ZnamSt11align_val_t"}) B(n,bi_newarr);
  for(auto n:{"_ZdlPv","_ZdlPvm","_ZdlPvRKSt9nothrow_t","_ZdlPvSt11align_val_t","_ZdlPvmSt11align_val_t"}) B(n,bi_delete); for(auto n:{"_ZdaPv","_ZdaPvm","_ZdaPvRKSt9nothrow_t","_ZdaPvSt11align_val_t"}) B(n,bi_deletearr);
  B("memcpy",bi_memcpy); B("memmove",bi_memmove); B("memset",bi_memset); B("memcmp",bi_memcmp); B("bcmp",bi_memcmp); B("strcmp",bi_strcmp); B("strncmp",bi_strncmp); B("strcasecmp",bi_strcasecmp); B("strncasecmp",bi_strncasecmp); B("strlen",bi_strlen);
  B("__cxa_allocate_exception",bi_cxa_alloc_exn); B("__cxa_free_exception",bi_cxa_free_exn); B("__cxa_throw",bi_cxa_throw); B("__cxa_begin_catch",bi_cxa_begin_catch); B("__cxa_end_catch",bi_cxa_end_catch); B("__cxa_rethrow",bi_cxa_rethrow); B("__cxa_get_exception_ptr",bi_cxa_get_exception_ptr);
  B("_ZSt9terminatev",bi_terminate); B("abort",bi_abort); B("__assert_fail",bi_assert_fail); B("exit",bi_exit); B("_exit",bi_exit); B("_Exit",bi_exit); B("quick_exit",bi_exit); B("__cxa_pure_virtual",bi_pure_virtual); B("__stack_chk_fail",bi_abort);
  B("__cxa_guard_acquire",bi_guard_acquire); B("__cxa_guard_release",bi_guard_release); B("__cxa_guard_abort",bi_nop); B("__cxa_atexit",bi_atexit); B("atexit",bi_atexit); B("__cxa_thread_atexit",bi_atexit);
  B("__dynamic_cast",bi_dynamic_cast); B("__errno_location",bi_errno_loc);
  B("sym_uint_",bi_sym_uint); B("sym_bytes",bi_sym_bytes); B("sym_choice",bi_sym_choice); B("sym_assume_",bi_sym_assume); B("sym_assert_",bi_sym_assert); B("sym_fail",bi_sym_fail); B("sym_reach",bi_sym_reach); B("sym_end",bi_sym_end); B("sym_observe",bi_sym_observe); B("sym_param",bi_sym_param); B("sym_concretize",bi_sym_concretize); B("sym_live_blocks",bi_sym_live); B("sym_try",bi_sym_try); B("sym_print",bi_sym_print); B("sym_prints",bi_sym_prints); B("sym_is_native",bi_nop); B("__sx_is_symbolic",bi_is_sym); B("__sx_mem_symbolic",bi_is_symmem); B("__sx_ite",bi_ite);
  B("__sx_fmt_double",bi_fmt_double); B("__sx_thread_create",bi_sx_create); B("__sx_self",bi_sx_self); B("__sx_switch",bi_sx_switch); B("__sx_lock",bi_sx_lock); B("__sx_acq",bi_sx_lock); B("__sx_rel",bi_sx_unlock); B("__sx_unlock",bi_sx_unlock); B("__sx_dedup",bi_sx_dedup); B("__sx_note",bi_sx_note); B("__sx_cycle",bi_sx_cycle); B("__sx_nswitch",bi_sx_nswitch); B("__sx_steps",bi_sx_steps);
  B("m_log",m1<log>); B("m_log10",m1<log10>); B("m_log2",m1<log2>); B("m_exp",m1<exp>); B("m_exp2",m1<exp2>); B("m_sin",m1<sin>); B("m_cos",m1<cos>); B("m_pow",m2<pow>);
  B("log",m1<log>); B("log10",m1<log10>); B("log2",m1<log2>); B("exp",m1<exp>); B("exp2",m1<exp2>); B("sin",m1<sin>); B("cos",m1<cos>); B("tan",m1<tan>); B("atan",m1<atan>); B("pow",m2<pow>); B("atan2",m2<atan2>); B("fmod",m2<fmod>); B("logf",m1f<log>); B("log10f",m1f<log10>); B("log2f",m1f<log2>); B("expf",m1f<exp>);
  B("rint",mr<0,64>); B("nearbyint",mr<0,64>); B("round",mr<1,64>); B("ceil",mr<2,64>); B("floor",mr<3,64>); B("trunc",mr<4,64>); B("rintf",mr<0,32>); B("roundf",mr<1,32>); B("ceilf",mr<2,32>); B("floorf",mr<3,32>); B("truncf",mr<4,32>); B("sqrt",msqrt<64>); B("sqrtf",msqrt<32>); B("fabs",mabs<64>); B("fabsf",mabs<32>); B("lround",mlround<64>); B("lroundf",mlround<32>); B("llround",mlround<64>);
}
