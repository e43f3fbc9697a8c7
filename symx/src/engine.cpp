// symx engine: symbolic execution of LLVM IR.
#include "engine.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/CFG.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <sys/resource.h>
#include <pthread.h>
#include <unistd.h>
#include <chrono>
#include <cstdarg>
#include <cmath>
#include <fstream>
using namespace llvm;
State::State(const State&o):thr(o.thr),cur(o.cur),mem(o.mem),pc(o.pc),model(o.model),inputs(o.inputs),obs(o.obs),exn(o.exn),curExn(o.curExn),nextEntry(o.nextEntry),steps(o.steps),depth(o.depth),liveBlocks(o.liveBlocks),tls(o.tls),atexits(o.atexits),switches(o.switches),streak(o.streak),note(o.note),sh(o.sh),rel(o.rel){ for(auto&t:thr) for(auto*f:t.st) f->rc++; }
static void relF(Frame*f){ if(--f->rc==0) delete f; }
State::~State(){ for(auto&t:thr) for(auto*f:t.st) relF(f); }

// ---------------------------------------------------------------- globals
static LLVMContext* LC; static Module* M; static const DataLayout* DL;
static std::unordered_map<const GlobalValue*,uint64_t> gaddr; static std::unordered_map<uint64_t,Function*> faddr; static std::unordered_map<const Function*,KFunc*> kf;
static std::unordered_map<uint64_t,std::string> addrName;
static std::vector<State*> work; static uint64_t nextHeapBase=0x600000000000ull;
static uint64_t vtClass=0,vtSI=0,vtVMI=0;
// options
static std::string optEntry="harness_main", optOut="/dev/stdout", optRepo="/repo"; static double optTime=600; static uint64_t optSteps=50000000, optMaxStates=2000000; static unsigned optMaxViol=3; static bool optRace=false, optVerbose=false; static unsigned optMaxErrExt=0; static uint64_t optMemMB=6000;
static std::map<std::string,int64_t> params; static std::map<std::string,std::string> sparams; static std::set<std::string> modelFns; static unsigned optSamples=6; static bool optNoDedup=false;
static std::string optInstrument; 
// results
struct Viol{ std::string kind,msg; std::vector<std::string> stack; std::string inputs; int thr; };
static std::vector<Viol> viols; static std::set<std::string> violKeys;
static std::map<std::string,uint64_t> reached; static std::vector<std::string> incomplete; static std::set<std::string> incompSet;
static uint64_t nPaths=0,nStates=1,nForks=0,nPruned=0,nAssumeKilled=0,nInstr=0,nDedup=0,nSchedPts=0,nAsserts=0; static uint64_t seenHashes=0;
struct Sample{ std::string inputs; std::string obs; std::string end; }; static std::vector<Sample> samples; static uint64_t finishedForSampling=0;
static std::unordered_set<uint64_t> visited;
static std::chrono::steady_clock::time_point T0; static double elapsed(){ return std::chrono::duration<double>(std::chrono::steady_clock::now()-T0).count(); }
static std::map<std::string,uint64_t> extCalls; static std::map<std::string,uint64_t> concretizations;
static void incompleteR(const std::string&s){ if(incompSet.insert(s).second&&incomplete.size()<40) incomplete.push_back(s); }
static std::set<uint32_t> raceIds; static std::set<std::pair<uint32_t,uint32_t>> racePairs; static std::vector<KInst*> instById; 
static std::string jesc(const std::string&s){ std::string r; char b[8]; for(unsigned char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if(c=='\n') r+="\\n"; else if(c<32||c>126){ snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r; }

enum R { NEXT, JUMPED, KILLED }; // KILLED: state is gone from current execution (deleted or requeued by callee)
typedef R (*Handler)(State*&, KInst&, Val* a, int n, Val& ret);
static std::unordered_map<std::string,Handler> builtins;
static State* CS; // current state
static bool requeued;

static unsigned twidth(Type*t){ if(t->isVoidTy()||t->isAggregateType()||t->isVectorTy()||t->isTokenTy()||t->isMetadataTy()||t->isLabelTy()) return 0; if(t->isFunctionTy()) return 64; return (unsigned)DL->getTypeSizeInBits(t); }
static E toE(Val v,unsigned w){ if(v.e) return v.e; return mkConst(v.c,w); }
static Val fromE(E e){ if(e->isC()&&e->w<=64) return VC((uint64_t)e->c); return Val{e,0}; }
static uint64_t msk(unsigned w){ return w>=64?~0ull:((1ull<<w)-1); }
static int64_t sx64(uint64_t v,unsigned w){ if(w>=64) return (int64_t)v; uint64_t m=1ull<<(w-1); return (int64_t)((v^m)-m); }

// ---------------------------------------------------------------- solver glue
static bool solve(State*s,E extra,ModelP&out){ // is pc && extra sat? may throw away on unknown
  VarSet vs=*extra->vars; std::vector<E> cs; cs.push_back(extra); std::vector<char> used(s->pc.size(),0); bool ch=true;
  while(ch){ ch=false; for(size_t i=0;i<s->pc.size();i++) if(!used[i]&&s->pc[i]->vars->intersects(vs)){ used[i]=1; cs.push_back(s->pc[i]); vs.add(*s->pc[i]->vars); ch=true; } }
  std::shared_ptr<Model> m; int r=solverCheck(cs,&m);
  if(r<0){ incompleteR("solver gave no answer within the query time limit"); return false; }
  if(r==0) return false;
  auto n=std::make_shared<Model>(); if(s->model) n->v=s->model->v; for(size_t i=0;i<vs.w.size()*64;i++) if(vs.has(i)){ if(n->v.size()<=i) n->v.resize(i+1); n->v[i]=m->get(i); }
  out=n; return true;
}
static void addC(State*s,E c){ if(c->isC()) return;
  if(c->op==O_AND&&c->w==1){ addC(s,c->k[0]); addC(s,c->k[1]); return; }
  s->pc.push_back(c); }
// what the path condition literally says about a comparison
static Val known(State*s,Val v){
  if(!v.e||v.e->w!=1||s->pc.size()>600) return v; E c=v.e; bool neg=false; if(c->op==O_XOR&&c->k[1]->isC()){ neg=true; c=c->k[0]; }
  bool lt=c->op==O_SLT||c->op==O_ULT, eq=c->op==O_EQ; if(!lt&&!eq) return v;
  int r=-1; bool ne=false,nlt=false;
  for(E p:s->pc){ bool pn=false; E q=p; if(q->op==O_XOR&&q->w==1&&q->k[1]->isC()){ pn=true; q=q->k[0]; }
    if(q==c){ r=pn?0:1; break; }
    if(q->nk<2||(q->op!=O_SLT&&q->op!=O_ULT&&q->op!=O_EQ)) continue;
    bool sw=q->k[0]==c->k[1]&&q->k[1]==c->k[0], sm=q->k[0]==c->k[0]&&q->k[1]==c->k[1]; if(!sw&&!sm) continue;
    if(!pn){ if(eq&&q->op!=O_EQ){ r=0; break; } if(lt&&(q->op==O_EQ||(q->op==c->op&&sw))){ r=0; break; } }
    else { if(q->op==O_EQ) ne=true; if(q->op==c->op&&sw) nlt=true; } }
  if(r<0&&lt&&ne&&nlt) r=1;
  if(r<0) return v; return VC((r!=0)!=neg); }
static State* cloneState(State*s){ State*n=new State(*s); n->id=nStates++; n->depth=s->depth+1; nForks++; return n; }
// returns truth of c on the continuing state; other (if non-null) takes the opposite and has its constraint added.
static bool branchOn(State*s,E c,State*&other){
  other=nullptr; if(c->isC()) return c->c!=0;
  bool v=evalExpr(c,s->model)!=0; E same=v?c:mkNot(c), opp=v?mkNot(c):c;
  ModelP m; if(solve(s,opp,m)){ other=cloneState(s); addC(other,opp); other->model=m; addC(s,same); }
  return v;
}
static bool mayBe(State*s,E c,ModelP*mo=nullptr){ if(c->isC()) { if(c->c&&mo) *mo=s->model; return c->c!=0; } if(evalExpr(c,s->model)){ if(mo)*mo=s->model; return true; } ModelP m; bool r=solve(s,c,m); if(r&&mo) *mo=m; return r; }

// ---------------------------------------------------------------- reporting
static std::string locOf(Instruction*I){ if(auto&d=I->getDebugLoc()){ auto*sc=d.get(); std::string r; while(sc){ r+=(r.empty()?"":" <- ")+sc->getFilename().str()+":"+std::to_string(sc->getLine()); sc=sc->getInlinedAt(); } return r; } return "?"; }
static std::vector<std::string> stackOf(State*s){ std::vector<std::string> r; auto&st=s->T().st; for(int i=(int)st.size()-1;i>=0&&r.size()<30;i--){ Frame*f=st[i]; if(f->pc<(int)f->f->in.size()) r.push_back(f->f->F->getName().str()+" @ "+locOf(f->f->in[f->pc].I)); } return r; }
static std::string inputsJson(State*s,const ModelP&m){ std::vector<InputRec*> v; for(auto*p=s->inputs.get();p;p=p->prev.get()) v.push_back(p); std::string o="["; bool first=true;
  for(int i=(int)v.size()-1;i>=0;i--){ if(!first) o+=","; first=false; o+="{\"n\":\""+jesc(v[i]->name)+"\",\"w\":"+std::to_string(v[i]->w)+",\"v\":["; for(size_t j=0;j<v[i]->vals.size();j++){ if(j) o+=","; char b[32]; snprintf(b,32,"%llu",(unsigned long long)evalExpr(v[i]->vals[j],m)); o+=b; } o+="]}"; } return o+"]"; }
static void report(State*s,const std::string&kind,const std::string&msg,ModelP m=nullptr){
  Viol v; v.kind=kind; v.msg=msg; v.stack=stackOf(s); v.inputs=inputsJson(s,m?m:s->model); v.thr=s->cur; 
  std::string key=kind+"|"+msg+"|"+(v.stack.empty()?"":v.stack[0]); if(!violKeys.insert(key).second) return; 
  if(optVerbose){ fprintf(stderr,"VIOL %s: %s\n",kind.c_str(),msg.c_str()); for(auto&x:v.stack) fprintf(stderr,"    %s\n",x.substr(0,200).c_str()); fprintf(stderr,"   inputs %s\n",v.inputs.c_str()); }
  viols.push_back(v); }
static void endPath(State*&s,const std::string&how){ nPaths++; finishedForSampling++;
  if(how=="ok"){ bool take=samples.size()<optSamples; size_t idx=samples.size(); if(!take){ // reservoir, deterministic
      uint64_t h=finishedForSampling*0x9E3779B97F4A7C15ull; h^=h>>32; if(h%finishedForSampling<optSamples){ take=true; idx=(h>>7)%optSamples; } }
    if(take){ Sample x; x.inputs=inputsJson(s,s->model); std::string o="["; std::vector<ObsRec*> v; for(auto*p=s->obs.get();p;p=p->prev.get()) v.push_back(p); for(int i=(int)v.size()-1;i>=0;i--){ char b[32]; snprintf(b,32,"%llu",(unsigned long long)evalExpr(v[i]->val,s->model)); o+=std::string(o.size()>1?",":"")+"[\""+jesc(v[i]->name)+"\","+b+"]"; } x.obs=o+"]"; x.end=how; if(idx<samples.size()) samples[idx]=x; else samples.push_back(x); } }
  delete s; s=nullptr; }
static R fail(State*&s,const std::string&kind,const std::string&msg){ report(s,kind,msg); endPath(s,"violation"); return KILLED; }
static R unsupported(State*&s,const std::string&msg){ incompleteR("unsupported: "+msg+" in "+(s->T().st.empty()?"":s->top()->f->F->getName().str())); if(optVerbose){ fprintf(stderr,"UNSUPPORTED %s\n",msg.c_str()); for(auto&x:stackOf(s)) fprintf(stderr,"    %s\n",x.substr(0,160).c_str()); } endPath(s,"unsupported"); return KILLED; }

// ---------------------------------------------------------------- constants
static KFunc* getKF(Function*F);
static uint64_t addrOfGV(const GlobalValue*g){ if(auto*a=dyn_cast<GlobalAlias>(g)) g=cast<GlobalValue>(a->getAliaseeObject()); auto it=gaddr.find(g); if(it==gaddr.end()){ fprintf(stderr,"no address for %s\n",g->getName().str().c_str()); exit(3);} return it->second; }
static Val constVal(const Constant*c);
static E constE(const Constant*c){ Val v=constVal(c); unsigned w=twidth(c->getType()); return v.e?v.e:mkConst(v.c,w); }
static Val constVal(const Constant*c){
  Type*t=c->getType();
  if(auto*ci=dyn_cast<ConstantInt>(c)){ const APInt&a=ci->getValue(); if(a.getBitWidth()<=64) return VC(a.getZExtValue()); u128 v=a.extractBitsAsZExtValue(64,0); v|=(u128)a.extractBitsAsZExtValue(a.getBitWidth()-64,64)<<64; return Val{mkConst(v,a.getBitWidth()),0}; }
  if(auto*cf=dyn_cast<ConstantFP>(c)){ if(t->isX86_FP80Ty()) return VC(0); return VC(cf->getValueAPF().bitcastToAPInt().getZExtValue()); }
  if(isa<ConstantPointerNull>(c)) return VC(0);
  if(auto*g=dyn_cast<GlobalValue>(c)) return VC(addrOfGV(g));
  if(auto*ce=dyn_cast<ConstantExpr>(c)){
    switch(ce->getOpcode()){
    case Instruction::GetElementPtr:{ auto*go=cast<GEPOperator>(ce); uint64_t b=constVal(cast<Constant>(go->getPointerOperand())).c; APInt off(64,0); if(!go->accumulateConstantOffset(*DL,off)){ fprintf(stderr,"gep const\n"); exit(3);} return VC(b+off.getZExtValue()); }
    case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
    case Instruction::PtrToInt: return VC(constVal(ce->getOperand(0)).c&msk(twidth(t)));
    case Instruction::IntToPtr: return constVal(ce->getOperand(0));
    case Instruction::Trunc: return VC(constVal(ce->getOperand(0)).c&msk(twidth(t)));
    case Instruction::Add: return VC((constVal(ce->getOperand(0)).c+constVal(ce->getOperand(1)).c)&msk(twidth(t)));
    case Instruction::Sub: return VC((constVal(ce->getOperand(0)).c-constVal(ce->getOperand(1)).c)&msk(twidth(t)));
    case Instruction::ICmp:{ uint64_t a=constVal(ce->getOperand(0)).c,b=constVal(ce->getOperand(1)).c; switch(ce->getPredicate()){case CmpInst::ICMP_EQ:return VC(a==b);case CmpInst::ICMP_NE:return VC(a!=b);case CmpInst::ICMP_ULT:return VC(a<b);case CmpInst::ICMP_UGT:return VC(a>b);default:break;} break; }
    default: break; }
    errs()<<"constexpr "<<*ce<<"\n"; exit(3);
  }
  if(isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)||isa<ConstantTokenNone>(c)){
    if(auto*st=dyn_cast<StructType>(t)){ if(st->getNumElements()==0) return VC(0); std::vector<E> v; for(unsigned i=0;i<st->getNumElements();i++) v.push_back(constE(isa<UndefValue>(c)?cast<Constant>(UndefValue::get(st->getElementType(i))):Constant::getNullValue(st->getElementType(i)))); return Val{mkAgg(v),0}; }
    if(t->isArrayTy()||t->isVectorTy()){ Type*et=t->isArrayTy()?t->getArrayElementType():cast<VectorType>(t)->getElementType(); unsigned n=t->isArrayTy()?t->getArrayNumElements():cast<FixedVectorType>(t)->getNumElements(); if(!n) return VC(0); E z=constE(Constant::getNullValue(et)); return Val{mkAgg(std::vector<E>(n,z)),0}; }
    unsigned w=twidth(t); if(w>64) return Val{mkConst(0,std::min(w,128u)),0}; return VC(0); }
  if(isa<ConstantStruct>(c)||isa<ConstantArray>(c)||isa<ConstantVector>(c)){ std::vector<E> v; for(unsigned i=0;i<c->getNumOperands();i++) v.push_back(constE(cast<Constant>(c->getOperand(i)))); if(v.empty()) return VC(0); return Val{mkAgg(v),0}; }
  if(auto*d=dyn_cast<ConstantDataSequential>(c)){ std::vector<E> v; for(unsigned i=0;i<d->getNumElements();i++) v.push_back(constE(d->getElementAsConstant(i))); return Val{mkAgg(v),0}; }
  errs()<<"const? "<<*c<<"\n"; exit(3);
}
static void writeConst(Obj*o,uint64_t off,const Constant*c){
  Type*t=c->getType(); if(isa<UndefValue>(c)) return; if(isa<ConstantAggregateZero>(c)||isa<ConstantPointerNull>(c)){ memset(o->data+off,0,DL->getTypeStoreSize(t)); return; }
  if(auto*d=dyn_cast<ConstantDataSequential>(c)){ StringRef r=d->getRawDataValues(); memcpy(o->data+off,r.data(),r.size()); return; }
  if(auto*s=dyn_cast<ConstantStruct>(c)){ const StructLayout*sl=DL->getStructLayout(s->getType()); for(unsigned i=0;i<s->getNumOperands();i++) writeConst(o,off+sl->getElementOffset(i),s->getOperand(i)); return; }
  if(isa<ConstantArray>(c)||isa<ConstantVector>(c)){ Type*et=t->isArrayTy()?t->getArrayElementType():cast<VectorType>(t)->getElementType(); uint64_t sz=DL->getTypeAllocSize(et); for(unsigned i=0;i<c->getNumOperands();i++) writeConst(o,off+i*sz,cast<Constant>(c->getOperand(i))); return; }
  if(t->isX86_FP80Ty()) return;
  Val v=constVal(c); unsigned n=DL->getTypeStoreSize(t); u128 x=v.e?v.e->c:v.c; for(unsigned i=0;i<n&&i<16;i++) o->data[off+i]=(uint8_t)(x>>(8*i));
}

// ---------------------------------------------------------------- lowering
static uint32_t nextUid=0;
static KFunc* getKF(Function*F){
  auto it=kf.find(F); if(it!=kf.end()) return it->second;
  KFunc*k=new KFunc; kf[F]=k; k->F=F; k->nslots=0; k->model=modelFns.count(F->getName().str())>0;
  if(auto*sp=F->getSubprogram()) k->file=(sp->getFilename().startswith("/")?"":sp->getDirectory().str()+"/")+sp->getFilename().str();
  std::unordered_map<const Value*,int> slot; for(auto&a:F->args()) slot[&a]=k->nslots++;
  std::unordered_map<const BasicBlock*,int> bbi; int nb=0; for(auto&B:*F){ bbi[&B]=nb++; k->bbs.push_back(&B);} 
  for(auto&B:*F) for(auto&I:B) if(!I.getType()->isVoidTy()) slot[&I]=k->nslots++;
  std::unordered_map<const Value*,int> cidx;
  auto opref=[&](const Value*v)->int{ auto i=slot.find(v); if(i!=slot.end()) return i->second; if(isa<BasicBlock>(v)||isa<MetadataAsValue>(v)||isa<InlineAsm>(v)) return -1; auto c=cidx.find(v); if(c!=cidx.end()) return c->second; k->consts.push_back(constVal(cast<Constant>(v))); int r=-(int)k->consts.size(); cidx[v]=r; return r; };
  k->consts.push_back(VC(0)); // index -1 dummy
  for(auto&B:*F){ k->bbStart.push_back(k->in.size());
    for(auto&I:B){ if(isa<DbgInfoIntrinsic>(&I)) continue;
      KInst ki; ki.I=&I; ki.opc=I.getOpcode(); ki.dest=I.getType()->isVoidTy()?-1:slot[&I]; ki.w=twidth(I.getType()); ki.ty=I.getType(); ki.bb=bbi[&B]; ki.handler=nullptr; ki.hit=false; ki.intr=0; ki.uid=nextUid++; ki.goff=0; ki.succ[0]=ki.succ[1]=-1; ki.vec=I.getType()->isVectorTy();
      ki.nops=I.getNumOperands(); ki.ops=(int*)malloc(sizeof(int)*(ki.nops+1));
      for(int i=0;i<ki.nops;i++) ki.ops[i]=opref(I.getOperand(i));
      ki.ow=ki.nops?(int)twidth(I.getOperand(0)->getType()):0; if(ki.nops&&I.getOperand(0)->getType()->isVectorTy()) ki.vec=true;
      if(auto*br=dyn_cast<BranchInst>(&I)){ ki.succ[0]=bbi[br->getSuccessor(0)]; if(br->isConditional()) ki.succ[1]=bbi[br->getSuccessor(1)]; }
      if(auto*iv=dyn_cast<InvokeInst>(&I)){ ki.succ[0]=bbi[iv->getNormalDest()]; ki.succ[1]=bbi[iv->getUnwindDest()]; }
      if(auto*g=dyn_cast<GetElementPtrInst>(&I)){ for(auto gi=gep_type_begin(g),ge=gep_type_end(g);gi!=ge;++gi){ Value*ix=gi.getOperand(); if(auto*st=gi.getStructTypeOrNull()){ ki.goff+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); } else { int64_t sz=DL->getTypeAllocSize(gi.getIndexedType()); if(auto*ci=dyn_cast<ConstantInt>(ix)) ki.goff+=sz*ci->getSExtValue(); else { // operand number
              int opn=-1; for(unsigned q=1;q<g->getNumOperands();q++) if(g->getOperand(q)==ix) opn=q; ki.gscale.push_back({opn,sz}); } } } }
      if(auto*cb=dyn_cast<CallBase>(&I)) if(auto*cf=cb->getCalledFunction()) ki.intr=cf->getIntrinsicID();
      k->in.push_back(ki); } }
  for(auto&ki:k->in){ if(instById.size()<=ki.uid) instById.resize(ki.uid+1); instById[ki.uid]=&ki; }
  return k;
}
static inline Val& slotv(State*s,int d){ return s->top()->L[d]; }
static inline Val opv(Frame*f,int r){ return r>=0?f->L[r]:f->f->consts[-1-r]; }
// ensure top frame unique
static inline Frame* wtop(State*s){ Frame*&f=s->thr[s->cur].st.back(); if(f->rc>1){ Frame*n=new Frame(*f); n->rc=1; f->rc--; f=n; } return f; }
static void jump(State*s,int bb){ Frame*f=wtop(s); f->prevBB=f->curBB; f->curBB=bb; f->pc=f->f->bbStart[bb];
  // phis in parallel
  int pc=f->pc; std::vector<std::pair<int,Val>> upd; BasicBlock*pb=f->f->bbs[f->prevBB];
  while(f->f->in[pc].opc==Instruction::PHI){ KInst&ki=f->f->in[pc]; ki.hit=true; auto*ph=cast<PHINode>(ki.I); int i=ph->getBasicBlockIndex(pb); upd.push_back({ki.dest,opv(f,ki.ops[i])}); pc++; }
  for(auto&u:upd) f->L[u.first]=u.second; f->pc=pc; }

// ---------------------------------------------------------------- memory
static Obj* newObj(State*s,uint64_t addr,uint32_t size,ObjKind k,uint8_t fill){ Obj*o=new Obj(addr,size,k); memset(o->data,fill,size); o->thr=s->cur; s->mem.insert(o); return o; }
static uint64_t heapAlloc(State*s,uint64_t size,ObjKind k,uint8_t fill=0xBE){ auto&t=s->T(); uint64_t a=t.hp; t.hp+=((size+15)&~15ull)+64; newObj(s,a,size,k,fill); s->liveBlocks++; return a; }
static void shForget(State*s,uint64_t a,uint64_t n);
static uint64_t stackAlloc(State*s,uint64_t size,unsigned al){ auto&t=s->T(); if(al<16) al=16; t.sp=(t.sp+32+al-1)&~(uint64_t)(al-1); uint64_t a=t.sp; newObj(s,a,size,K_STACK,0xAA); if(optRace) shForget(s,a,size); t.sp=a+((size+15)&~15ull); return a; }
static std::string ptrDesc(State*s,uint64_t a){ char b[200]; Obj*o=s->mem.floorObj(a); if(a<4096) snprintf(b,200,"null pointer + %llu",(unsigned long long)a); else if(o&&a-o->addr<o->size+64ull){ const char*kn[]={"global","stack","new","new[]","malloc","exception","code"}; snprintf(b,200,"%s%s object of size %u at offset %lld",o->freed?"freed ":"",kn[o->kind],o->size,(long long)(a-o->addr)); std::string r=b; auto it=addrName.find(o->addr); if(it!=addrName.end()) r+=" ("+it->second+")"; return r; } else snprintf(b,200,"unmapped address 0x%llx",(unsigned long long)a); return b; }
// resolve pointer to object + offset. On success returns NEXT with obj set; ptr may become symbolic offset (off.e!=null)
// e as a choice among constants: g(value) distributed over the choice (null if e is not of that form or has too many leaves); collects the constants
static E overLeaves(E e,const std::function<u128(u128)>&f,const std::function<E(u128)>&g,std::set<uint64_t>&vals,int&budget){
  if(--budget<0) return nullptr; u128 m=e->w>=128?~(u128)0:(((u128)1<<e->w)-1);
  if(e->isC()){ u128 v=f(e->c); vals.insert((uint64_t)v); return g(v); }
  if(e->op==O_ITE){ E a=overLeaves(e->k[1],f,g,vals,budget); if(!a) return nullptr; E b=overLeaves(e->k[2],f,g,vals,budget); if(!b) return nullptr; return mkIte(e->k[0],a,b); }
  if((e->op==O_ADD||e->op==O_SUB)&&e->k[1]->isC()){ u128 c=e->k[1]->c; bool sub=e->op==O_SUB; return overLeaves(e->k[0],[&f,c,m,sub](u128 v){ return f((sub?v-c:v+c)&m); },g,vals,budget); }
  if(e->op==O_ADD&&e->k[0]->isC()){ u128 c=e->k[0]->c; return overLeaves(e->k[1],[&f,c,m](u128 v){ return f((v+c)&m); },g,vals,budget); }
  if(e->op==O_CONCAT&&e->k[0]->isC()){ u128 c=e->k[0]->c<<e->k[1]->w; return overLeaves(e->k[1],[&f,c](u128 v){ return f(v|c); },g,vals,budget); }
  if(e->op==O_CONCAT&&e->k[1]->isC()){ u128 c=e->k[1]->c; unsigned sh=e->k[1]->w; return overLeaves(e->k[0],[&f,c,sh](u128 v){ return f((v<<sh)|c); },g,vals,budget); }
  return nullptr; }
static bool forkConcretize(State*s,Val&v,unsigned w,const char*why){ // make v concrete on this state; other values requeued at same pc
  if(!v.e) return true; E e=v.e; uint64_t c=(uint64_t)evalExpr(e,s->model); std::set<uint64_t> vals; int budget=200; E eq=overLeaves(e,[](u128 x){ return x; },[c](u128 x){ return mkConst((uint64_t)x==c?1:0,1); },vals,budget); if(!eq) eq=mkEq(e,mkConst(c,w)); State*o; branchOn(s,eq,o); if(o) work.push_back(o); concretizations[why]++; v=VC(c); return true; }
// happens-before race detection: vector clocks per thread, release/acquire clocks per synchronisation object, one shadow record per address/thread/instruction
static void vjoin(VClk&a,const VClk&b){ if(a.size()<b.size()) a.resize(b.size()); for(size_t i=0;i<b.size();i++) if(a[i]<b[i]) a[i]=b[i]; }
static void hbAcquire(State*s,uint64_t o){ auto it=s->rel.find(o); if(it!=s->rel.end()) vjoin(s->T().vc,it->second); }
static void hbRelease(State*s,uint64_t o){ auto&v=s->T().vc; if((int)v.size()<=s->cur) v.resize(s->cur+1); vjoin(s->rel[o],v); v[s->cur]++; }
static ShBucket& shBucket(State*s,uint64_t a){ if(s->sh.empty()) s->sh.resize(64); auto&b=s->sh[(a>>6)&63]; if(!b) b=std::make_shared<ShBucket>(); else if(b.use_count()>1) b=std::make_shared<ShBucket>(*b); return *b; }
static void shForget(State*s,uint64_t a,uint64_t n){ if(s->sh.empty()) return; for(uint64_t x=a&~63ull;x<a+n;x+=64){ auto&b=s->sh[(x>>6)&63]; if(!b) continue; bool any=false; for(auto&p:b->m) if(p.first>=a&&p.first<a+n){ any=true; break; } if(!any) continue; auto&m=shBucket(s,x).m; for(auto i=m.begin();i!=m.end();) if(i->first>=a&&i->first<a+n) i=m.erase(i); else ++i; if(x-a>4096) break; } }
static void rec1(State*s,KInst&ki,uint64_t a,bool wr){ auto&vc=s->T().vc; int me=s->cur; if((int)vc.size()<=me) vc.resize(me+1); if(!vc[me]) vc[me]=1;
  if(!s->sh.empty()){ auto&b=s->sh[(a>>6)&63]; if(b){ auto it=b->m.find(a); if(it!=b->m.end()) for(auto&r:it->second) if(r.thr==me&&r.inst==ki.uid&&r.wr==wr&&r.clk==vc[me]) return; } }
  auto&v=shBucket(s,a).m[a]; bool f=false; for(auto&r:v){ if(r.thr==me){ if(r.inst==ki.uid&&r.wr==wr){ r.clk=vc[me]; f=true; } } else if((wr||r.wr)&&r.clk>(r.thr<(int)vc.size()?vc[r.thr]:0)){ raceIds.insert(r.inst); raceIds.insert(ki.uid); racePairs.insert({r.inst,ki.uid}); } } if(!f) v.push_back({me,ki.uid,wr,vc[me]}); }
static void recAcc(State*s,KInst&ki,uint64_t a,unsigned n,bool wr){
  if(s->thr.size()<2||s->top()->f->model) return; 
  if(n<=8) rec1(s,ki,a,wr); else for(unsigned i=0;i<n;i+=8) rec1(s,ki,a+i,wr); }
static R resolve(State*&s,Val p,uint64_t n,bool wr,Obj*&obj,Val&off,const char*what){
  if(!p.e){ Obj*o=s->mem.find(p.c); 
    if(!o||o->freed||p.c-o->addr+n>o->size||(wr&&o->ro)||o->kind==K_CODE){ 
      return fail(s,o&&o->freed?"use-after-free":wr?"invalid-write":"invalid-read",std::string(what)+" of "+std::to_string(n)+" bytes at "+ptrDesc(s,p.c)+(o&&o->ro&&wr?" (read-only)":"")); }
    obj=o; off=VC(p.c-o->addr); return NEXT; }
  uint64_t c=(uint64_t)evalExpr(p.e,s->model); Obj*o=s->mem.find(c); 
  if(!o||o->freed||c-o->addr+n>o->size||(wr&&o->ro)) return fail(s,o&&o->freed?"use-after-free":wr?"invalid-write":"invalid-read",std::string(what)+" (symbolic address) of "+std::to_string(n)+" bytes at "+ptrDesc(s,c));
  E d=mkBin(O_SUB,p.e,mkConst(o->addr,64)); E lim=mkConst(o->size-n+1,64); uint64_t ba=o->addr,sz=o->size-n+1; std::set<uint64_t> vals; int budget=400; E inb=overLeaves(p.e,[](u128 v){ return v; },[ba,sz](u128 v){ return mkConst((uint64_t)v-ba<sz?1:0,1); },vals,budget); bool leaves=inb!=nullptr; if(!leaves) inb=mkUlt(d,lim);
  if(!inb->isC()){ State*ot; bool v=branchOn(s,inb,ot); if(ot) work.push_back(ot); (void)v; }
  obj=o; off=fromE(d); if(leaves){ uint64_t only=0; int k=0; for(uint64_t v:vals) if(v-ba<sz){ only=v; k++; } if(k==1){ off=VC(only-ba); return NEXT; } } if(off.e&&(o->size>4096)){ forkConcretize(s,off,64,"pointer into large object"); }
  return NEXT; }
static E readBytes(Obj*o,uint64_t off,unsigned n){ // little endian
  bool anysym=false; if(o->sym) for(unsigned i=0;i<n;i++) if(o->sym[off+i]){ anysym=true; break; }
  if(!anysym){ u128 v=0; for(unsigned i=0;i<n;i++) v|=(u128)o->data[off+i]<<(8*i); return mkConst(v,8*n); }
  E r=o->byteE(off+n-1); for(int i=(int)n-2;i>=0;i--) r=mkConcat(r,o->byteE(off+i)); return r; }
static unsigned trailZ(E e){ if(e->isC()){ if(!e->c) return e->w; unsigned n=0; while(!((e->c>>n)&1)) n++; return n; } if(e->op==O_CONCAT){ unsigned t=trailZ(e->k[1]); if(t==e->k[1]->w) return t+trailZ(e->k[0]); return t; } if(e->op==O_ADD||e->op==O_SUB) return std::min(trailZ(e->k[0]),trailZ(e->k[1])); if(e->op==O_MUL) return std::min(64u,trailZ(e->k[0])+trailZ(e->k[1])); if(e->op==O_ITE) return std::min(trailZ(e->k[1]),trailZ(e->k[2])); return 0; }
static void symCandidates(Obj*o,E off,unsigned n,uint64_t&i0,unsigned&k,uint64_t&cnt){ // candidates i0 + (y<<k), y<cnt
  E x=off; uint64_t c=0; if(off->op==O_ADD&&off->k[1]->isC()){ x=off->k[0]; c=(uint64_t)off->k[1]->c; }
  k=std::min(trailZ(x),12u); i0=c&((1ull<<k)-1); 
  // use range to trim
  uint64_t hi=o->size-n; u128 mx=umaxOf(off), mn=uminOf(off); if(mx<hi) hi=(uint64_t)mx; uint64_t lo=mn>hi?0:(uint64_t)mn; if(i0<lo) i0+=((lo-i0+(1ull<<k)-1)>>k)<<k; 
  cnt= i0>hi?0:((hi-i0)>>k)+1; }
static E readSym(Obj*o,E off,unsigned n){
  if(off->op!=O_VAR){ std::set<uint64_t> vals; int budget=200; E r=overLeaves(off,[](u128 v){ return v; },[&](u128 v){ return (uint64_t)v+n<=o->size?readBytes(o,(uint64_t)v,n):mkConst(0,8*n); },vals,budget); if(r&&vals.size()<=24) return r; }
  uint64_t i0,cnt; unsigned k; symCandidates(o,off,n,i0,k,cnt); if(cnt==0) return mkConst(0,8*n);
  unsigned nb=0; while((1ull<<nb)<cnt) nb++;
  if(nb==0) return readBytes(o,i0,n);
  E y=mkExtract(mkBin(O_SUB,off,mkConst(i0,64)),k,nb);
  std::function<E(int,uint64_t)> build=[&](int bit,uint64_t base)->E{ if(base>=cnt) return nullptr; if(bit<0) return readBytes(o,i0+(base<<k),n); E lo=build(bit-1,base), hi=build(bit-1,base|(1ull<<bit)); if(!hi) return lo; return mkIte(mkExtract(y,bit,1),hi,lo); };
  return build((int)nb-1,0); }
static void writeBytes(Obj*o,uint64_t off,Val v,unsigned n){ if(!v.e){ for(unsigned i=0;i<n;i++) o->setC(off+i,(uint8_t)(i<8?v.c>>(8*i):0)); return; } E e=v.e; if(e->w<8*n) e=mkZExt(e,8*n); for(unsigned i=0;i<n;i++) o->setE(off+i,mkExtract(e,8*i,8)); }
static R loadScalar(State*&s,KInst&ki,Val p,unsigned w,Val&out){ unsigned n=(w+7)/8; Obj*o; Val off; R r=resolve(s,p,n,false,o,off,"load"); if(r!=NEXT) return r; if(optRace&&!off.e) recAcc(s,ki,o->addr+off.c,n,false);
  if(!off.e&&!o->nsym&&w<=64){ uint64_t v=0; memcpy(&v,o->data+off.c,n); out=VC(v&msk(w)); return NEXT; }
  E e=off.e?readSym(o,off.e,n):readBytes(o,off.c,n); if(w<8*n) e=mkExtract(e,0,w); out=fromE(e); return NEXT; }
static R storeScalar(State*&s,KInst&ki,Val p,Val v,unsigned w){ unsigned n=(w+7)/8; Obj*o; Val off; R r=resolve(s,p,n,true,o,off,"store"); if(r!=NEXT) return r; if(optRace&&!off.e) recAcc(s,ki,o->addr+off.c,n,true);
  if(off.e){ std::set<uint64_t> vals; int budget=200; E any=overLeaves(off.e,[](u128 v){ return v; },[&](u128 v){ return mkConst(0,1); },vals,budget); if(any&&vals.size()<=24){ o=s->mem.writable(o->addr); E e=toE(v,w); if(w<8*n) e=mkZExt(e,8*n); for(uint64_t i:vals){ if(i+n>o->size) continue; int b2=200; std::set<uint64_t> v2; E c=overLeaves(off.e,[](u128 v){ return v; },[&](u128 v){ return mkConst((uint64_t)v==i?1:0,1); },v2,b2); if(c->isC()&&!c->c) continue; for(unsigned j=0;j<n;j++) o->setE(i+j,mkIte(c,mkExtract(e,8*j,8),o->byteE(i+j))); } return NEXT; }
    uint64_t i0,cnt; unsigned k; symCandidates(o,off.e,n,i0,k,cnt); if(cnt>600){ forkConcretize(s,off,64,"store to symbolic offset in large object"); o=s->mem.find(o->addr); }
    else { o=s->mem.writable(o->addr); E e=toE(v,w); if(w<8*n) e=mkZExt(e,8*n); for(uint64_t y=0;y<cnt;y++){ uint64_t i=i0+(y<<k); E c=mkEq(off.e,mkConst(i,64)); if(c->isC()&&!c->c) continue; for(unsigned j=0;j<n;j++) o->setE(i+j,mkIte(c,mkExtract(e,8*j,8),o->byteE(i+j))); } return NEXT; } }
  o=s->mem.writable(o->addr); if(!v.e&&w<=64&&!o->nsym){ uint64_t x=v.c; memcpy(o->data+off.c,&x,n>8?8:n); return NEXT; }
  writeBytes(o,off.c,v,n); return NEXT; }
static void flatten(Type*t,uint64_t off,std::vector<std::pair<Type*,uint64_t>>&out){ if(auto*st=dyn_cast<StructType>(t)){ auto*sl=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++) flatten(st->getElementType(i),off+sl->getElementOffset(i),out); } else if(t->isArrayTy()){ uint64_t sz=DL->getTypeAllocSize(t->getArrayElementType()); for(unsigned i=0;i<t->getArrayNumElements();i++) flatten(t->getArrayElementType(),off+i*sz,out);} else out.push_back({t,off}); }
static R loadAny(State*&s,KInst&ki,Val p,Type*t,Val&out){
  if(!t->isAggregateType()&&!t->isVectorTy()){ unsigned w=twidth(t); if(w>128||t->isX86_FP80Ty()) return unsupported(s,"load of type width "+std::to_string(w)); return loadScalar(s,ki,p,w,out); }
  if(p.e) forkConcretize(s,p,64,"aggregate load pointer");
  std::vector<E> v;
  if(auto*st=dyn_cast<StructType>(t)){ auto*sl=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++){ Val x; R r=loadAny(s,ki,VC(p.c+sl->getElementOffset(i)),st->getElementType(i),x); if(r!=NEXT) return r; v.push_back(x.e?x.e:mkConst(x.c,twidth(st->getElementType(i)))); } }
  else { Type*et=t->isArrayTy()?t->getArrayElementType():cast<VectorType>(t)->getElementType(); unsigned n=t->isArrayTy()?t->getArrayNumElements():cast<FixedVectorType>(t)->getNumElements(); 
    if(t->isVectorTy()&&twidth(et)%8){ Val x; R r=loadScalar(s,ki,p,n*twidth(et),x); if(r!=NEXT) return r; E e=toE(x,n*twidth(et)); for(unsigned i=0;i<n;i++) v.push_back(mkExtract(e,i*twidth(et),twidth(et))); }
    else { uint64_t sz=t->isVectorTy()?twidth(et)/8:DL->getTypeAllocSize(et); for(unsigned i=0;i<n;i++){ Val x; R r=loadAny(s,ki,VC(p.c+i*sz),et,x); if(r!=NEXT) return r; v.push_back(x.e?x.e:mkConst(x.c,twidth(et))); } } }
  if(v.empty()){ out=VC(0); return NEXT; } out=Val{mkAgg(v),0}; return NEXT; }
static R storeAny(State*&s,KInst&ki,Val p,Val v,Type*t){
  if(!t->isAggregateType()&&!t->isVectorTy()){ unsigned w=twidth(t); if(w>128||t->isX86_FP80Ty()) return unsupported(s,"store of type width "+std::to_string(w)); return storeScalar(s,ki,p,v,w); }
  if(p.e) forkConcretize(s,p,64,"aggregate store pointer");
  if(!v.e) return NEXT;
  if(auto*st=dyn_cast<StructType>(t)){ auto*sl=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++){ R r=storeAny(s,ki,VC(p.c+sl->getElementOffset(i)),fromE(v.e->kid(i)),st->getElementType(i)); if(r!=NEXT) return r; } return NEXT; }
  Type*et=t->isArrayTy()?t->getArrayElementType():cast<VectorType>(t)->getElementType(); unsigned n=t->isArrayTy()?t->getArrayNumElements():cast<FixedVectorType>(t)->getNumElements(); uint64_t sz=t->isVectorTy()?twidth(et)/8:DL->getTypeAllocSize(et); if(!sz) return unsupported(s,"bit vector store");
  for(unsigned i=0;i<n;i++){ Val x=v.e->op==O_AGG?(v.e->kid(i)->op==O_AGG?Val{v.e->kid(i),0}:fromE(v.e->kid(i))):VC(0); R r=storeAny(s,ki,VC(p.c+i*sz),x,et); if(r!=NEXT) return r; } return NEXT; }

// fromE keeps AGG
static Val fromEA(E e){ if(e->op==O_AGG) return Val{e,0}; return fromE(e); }
// helper memory access for builtins (concrete pointers)
static uint64_t rd64(State*s,uint64_t a){ Obj*o=s->mem.find(a); if(!o||o->freed||a-o->addr+8>o->size) return 0; uint64_t v; memcpy(&v,o->data+(a-o->addr),8); return v; }
static std::string cstr(State*s,uint64_t a){ std::string r; Obj*o=s->mem.find(a); if(!o||o->freed) return r; for(uint64_t i=a-o->addr;i<o->size&&o->data[i];i++) r+=o->isSym(i)?'?':(char)o->data[i]; return r; }

// ---------------------------------------------------------------- frames, calls, exceptions
static void pushFrame(State*s,KFunc*f,Val*args,int n,bool tryB=false){
  Frame*fr=new Frame; fr->f=f; fr->L.resize(f->nslots); fr->tryB=tryB; fr->spSave=s->T().sp; int na=f->F->arg_size(); for(int i=0;i<n&&i<na;i++) fr->L[i]=args[i];
  f->executed=true; fr->pc=f->bbStart[0]; s->T().st.push_back(fr); }
static void popFrame(State*s){ Frame*f=s->T().st.back(); for(auto a:f->allocas) s->mem.erase(a); s->T().sp=f->spSave; s->T().st.pop_back(); relF(f); }
static R advanceAfterCall(State*s,Val ret){ // top frame is caller at call inst
  Frame*f=wtop(s); KInst&ki=f->f->in[f->pc]; if(ki.dest>=0) f->L[ki.dest]=ret; if(ki.opc==Instruction::Invoke) jump(s,ki.succ[0]); else f->pc++; return JUMPED; }
static bool tiName(State*s,uint64_t ti,std::string&o){ o=cstr(s,rd64(s,ti+8)); return true; }
// is `derived` convertible to `base`; computes offset
static bool tiDerives(State*s,uint64_t d,uint64_t b,uint64_t&off){ if(d==b) return true; std::string n1,n2; tiName(s,d,n1); tiName(s,b,n2); if(n1==n2&&!n1.empty()) return true; uint64_t vt=rd64(s,d)-16; 
  if(vt==vtSI&&vtSI) return tiDerives(s,rd64(s,d+16),b,off);
  if(vt==vtVMI&&vtVMI){ uint64_t cnt=rd64(s,d+16)>>32; for(uint64_t i=0;i<cnt;i++){ uint64_t bt=rd64(s,d+24+16*i), fl=rd64(s,d+32+16*i); uint64_t o2=off+(uint64_t)((int64_t)fl>>8); uint64_t save=off; off=o2; if(tiDerives(s,bt,b,off)) return true; off=save; } }
  return false; }
static std::unordered_map<uint64_t,int> tiIds; static int tiId(uint64_t a){ auto it=tiIds.find(a); if(it!=tiIds.end()) return it->second; int n=tiIds.size()+1; tiIds[a]=n; return n; }
// throw/resume: unwind current thread. skipTop: begin search at frame index (from top)
static R unwind(State*&s,uint64_t exn){
  auto&st=s->T().st; ExnInfo&ei=s->exn[exn]; std::string tn; tiName(s,ei.ti,tn);
  // phase 1
  int hf=-1; uint64_t sel=0,adj=exn;
  for(int i=(int)st.size()-1;i>=0&&hf<0;i--){ Frame*f=st[i]; KInst&ki=f->f->in[f->pc]; if(ki.opc!=Instruction::Invoke) { if(f->tryB) break; continue; }
    auto*lp=cast<InvokeInst>(ki.I)->getUnwindDest()->getLandingPadInst(); 
    for(unsigned c=0;c<lp->getNumClauses();c++) if(lp->isCatch(c)){ auto*cl=cast<Constant>(lp->getClause(c)); if(isa<ConstantPointerNull>(cl)){ hf=i; sel=tiId(0); break; } uint64_t ti=constVal(cl).c; uint64_t off=0; if(tiDerives(s,ei.ti,ti,off)){ hf=i; sel=tiId(ti); adj=exn+off; break; } } 
      else { // filter: empty filter => terminate
        auto*cl=lp->getClause(c); if(cl->getType()->getArrayNumElements()==0) return fail(s,"uncaught-exception","exception "+tn+" hits an empty exception specification"); } }
  if(hf<0) return fail(s,"uncaught-exception","uncaught exception of type "+tn);
  // phase 2: innermost invoke with landing pad that is cleanup, or handler
  while(true){ int i=(int)st.size()-1; Frame*f=st[i]; KInst&ki=f->f->in[f->pc]; bool isH=i==hf; bool take=false; if(ki.opc==Instruction::Invoke){ auto*lp=cast<InvokeInst>(ki.I)->getUnwindDest()->getLandingPadInst(); take=isH||lp->isCleanup(); 
      if(take){ jump(s,ki.succ[1]); Frame*g=wtop(s); // g->pc at landingpad
        KInst&lk=g->f->in[g->pc]; lk.hit=true; std::vector<E> v{mkConst(exn,64),mkConst(isH?sel:0,32)}; g->L[lk.dest]=Val{mkAgg(v),0}; if(isH) s->exn[exn].adj=adj; g->pc++; return JUMPED; } }
    popFrame(s); } }
static R doAbort(State*&s,const std::string&kind,const std::string&msg,int code){ // honours sym_try
  auto&st=s->T().st; int t=-1; for(int i=(int)st.size()-1;i>=0;i--) if(st[i]->tryB){ t=i; break; }
  if(t<0) return fail(s,kind,msg);
  while((int)st.size()>t) popFrame(s); return advanceAfterCall(s,VC(code)); }
static R threadFinished(State*&s);
static R doRet(State*&s,Val rv){
  Frame*f=s->top(); bool tb=f->tryB; uint64_t fx=f->freeExn; popFrame(s);
  if(fx){ s->exn.erase(fx); Obj*o=s->mem.find(fx); if(o) { s->mem.erase(o->addr); s->liveBlocks--; } }
  if(s->T().st.empty()) return threadFinished(s);
  return advanceAfterCall(s,tb?VC(0):rv); }
static std::vector<Function*> entries;
static R threadFinished(State*&s){
  if(s->cur==0){ s->nextEntry++; if(s->nextEntry<(int)entries.size()){ pushFrame(s,getKF(entries[s->nextEntry]),nullptr,0); return JUMPED; } endPath(s,"ok"); return KILLED; }
  s->T().done=true; return fail(s,"engine","thread function returned to engine"); }
#include "exec.inc"
#include "builtins.inc"
#include "main.inc"
