// ---------------------------------------------------------------- scalar ops
static Val binop(State*s,unsigned opc,Val a,Val b,unsigned w){
  if(!a.e&&!b.e&&w<=64){ uint64_t x=a.c,y=b.c,m=msk(w);
    switch(opc){ case Instruction::Add:return VC((x+y)&m);case Instruction::Sub:return VC((x-y)&m);case Instruction::Mul:return VC((x*y)&m);case Instruction::And:return VC(x&y);case Instruction::Or:return VC(x|y);case Instruction::Xor:return VC(x^y);
      case Instruction::Shl:return VC(y>=w?0:(x<<y)&m);case Instruction::LShr:return VC(y>=w?0:x>>y);case Instruction::AShr:return VC((uint64_t)(sx64(x,w)>>(y>=w?w-1:y))&m);
      case Instruction::UDiv:return VC(x/y);case Instruction::URem:return VC(x%y);
      case Instruction::SDiv:{ int64_t p=sx64(x,w),q=sx64(y,w); if(q==-1) return VC((0-x)&m); return VC((uint64_t)(p/q)&m);} case Instruction::SRem:{ int64_t p=sx64(x,w),q=sx64(y,w); if(q==-1) return VC(0); return VC((uint64_t)(p%q)&m);} } }
  E x=toE(a,w),y=toE(b,w);
  switch(opc){ case Instruction::Add:return fromE(mkBin(O_ADD,x,y));case Instruction::Sub:return fromE(mkBin(O_SUB,x,y));case Instruction::Mul:return fromE(mkBin(O_MUL,x,y));case Instruction::And:return fromE(mkBin(O_AND,x,y));case Instruction::Or:return fromE(mkBin(O_OR,x,y));case Instruction::Xor:return fromE(mkBin(O_XOR,x,y));
    case Instruction::Shl:return fromE(mkBin(O_SHL,x,y));case Instruction::LShr:return fromE(mkBin(O_LSHR,x,y));case Instruction::AShr:return fromE(mkBin(O_ASHR,x,y));
    case Instruction::UDiv:return fromE(mkBin(O_UDIV,x,y));case Instruction::URem:return fromE(mkBin(O_UREM,x,y));case Instruction::SDiv:return fromE(mkBin(O_SDIV,x,y));case Instruction::SRem:return fromE(mkBin(O_SREM,x,y));
    case Instruction::FAdd:return fromE(mkF2(O_FADD,x,y));case Instruction::FSub:return fromE(mkF2(O_FSUB,x,y));case Instruction::FMul:return fromE(mkF2(O_FMUL,x,y));case Instruction::FDiv:return fromE(mkF2(O_FDIV,x,y));case Instruction::FRem:return fromE(mkF2(O_FREM,x,y)); }
  abort(); }
static Val icmp(CmpInst::Predicate p,Val a,Val b,unsigned w){
  if(!a.e&&!b.e){ uint64_t x=a.c,y=b.c; int64_t sx_=sx64(x,w),sy=sx64(y,w); bool r; switch(p){case CmpInst::ICMP_EQ:r=x==y;break;case CmpInst::ICMP_NE:r=x!=y;break;case CmpInst::ICMP_ULT:r=x<y;break;case CmpInst::ICMP_ULE:r=x<=y;break;case CmpInst::ICMP_UGT:r=x>y;break;case CmpInst::ICMP_UGE:r=x>=y;break;case CmpInst::ICMP_SLT:r=sx_<sy;break;case CmpInst::ICMP_SLE:r=sx_<=sy;break;case CmpInst::ICMP_SGT:r=sx_>sy;break;default:r=sx_>=sy;} return VC(r); }
  E x=toE(a,w),y=toE(b,w),r; switch(p){case CmpInst::ICMP_EQ:r=mkEq(x,y);break;case CmpInst::ICMP_NE:r=mkNot(mkEq(x,y));break;case CmpInst::ICMP_ULT:r=mkUlt(x,y);break;case CmpInst::ICMP_ULE:r=mkNot(mkUlt(y,x));break;case CmpInst::ICMP_UGT:r=mkUlt(y,x);break;case CmpInst::ICMP_UGE:r=mkNot(mkUlt(x,y));break;case CmpInst::ICMP_SLT:r=mkSlt(x,y);break;case CmpInst::ICMP_SLE:r=mkNot(mkSlt(y,x));break;case CmpInst::ICMP_SGT:r=mkSlt(y,x);break;default:r=mkNot(mkSlt(x,y));} return fromE(r); }
static Val fcmp(CmpInst::Predicate p,Val a,Val b,unsigned w){ E x=toE(a,w),y=toE(b,w),r; auto lt=[](E p,E q){return mkF2(O_FLT,p,q);}; auto le=[](E p,E q){return mkF2(O_FLE,p,q);};
  auto uno=[&]{ return mkOrB(mkF1(O_FISNAN,x,1),mkF1(O_FISNAN,y,1)); };
  switch(p){ case CmpInst::FCMP_FALSE:r=mkConst(0,1);break;case CmpInst::FCMP_TRUE:r=mkConst(1,1);break;case CmpInst::FCMP_OEQ:r=mkF2(O_FEQ,x,y);break;case CmpInst::FCMP_OGT:r=lt(y,x);break;case CmpInst::FCMP_OGE:r=le(y,x);break;case CmpInst::FCMP_OLT:r=lt(x,y);break;case CmpInst::FCMP_OLE:r=le(x,y);break;case CmpInst::FCMP_ONE:r=mkOrB(lt(x,y),lt(y,x));break;case CmpInst::FCMP_ORD:r=mkNot(uno());break;case CmpInst::FCMP_UNO:r=uno();break;
    case CmpInst::FCMP_UEQ:r=mkNot(mkOrB(lt(x,y),lt(y,x)));break;case CmpInst::FCMP_UGT:r=mkNot(le(x,y));break;case CmpInst::FCMP_UGE:r=mkNot(lt(x,y));break;case CmpInst::FCMP_ULT:r=mkNot(le(y,x));break;case CmpInst::FCMP_ULE:r=mkNot(lt(y,x));break;default:r=mkNot(mkF2(O_FEQ,x,y)); } return fromE(r); }
static Val castop(unsigned opc,Val a,unsigned iw,unsigned ow){
  if(!a.e&&iw<=64&&ow<=64) switch(opc){ case Instruction::ZExt: case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::AddrSpaceCast: return VC(a.c&msk(ow)); case Instruction::SExt: return VC((uint64_t)sx64(a.c,iw)&msk(ow)); }
  E x=toE(a,iw);
  switch(opc){ case Instruction::Trunc: return fromE(mkExtract(x,0,ow)); case Instruction::ZExt: return fromE(mkZExt(x,ow)); case Instruction::SExt: return fromE(mkSExt(x,ow)); case Instruction::BitCast: case Instruction::AddrSpaceCast: return fromE(x);
    case Instruction::PtrToInt: case Instruction::IntToPtr: return fromE(ow>=iw?mkZExt(x,ow):mkExtract(x,0,ow));
    case Instruction::FPToSI: return fromE(ow<32?mkExtract(mkF1(O_FTOSI,x,32),0,ow):mkF1(O_FTOSI,x,ow)); case Instruction::FPToUI: return fromE(ow<32?mkExtract(mkF1(O_FTOSI,x,32),0,ow):mkF1(O_FTOUI,x,ow)); case Instruction::SIToFP: return fromE(mkF1(O_SITOF,x,ow)); case Instruction::UIToFP: return fromE(mkF1(O_UITOF,x,ow)); case Instruction::FPTrunc: case Instruction::FPExt: return fromE(mkF1(O_FTOF,x,ow)); }
  abort(); }
static E lane(Val v,unsigned i,unsigned w){ if(!v.e) return mkConst(0,w); return v.e->kid(i); }
static R checkDiv(State*&s,Val d,unsigned w){ E z=mkEq(toE(d,w),mkConst(0,w)); if(z->isC()){ if(z->c) return fail(s,"div-by-zero","division by zero"); return NEXT; } State*o; bool v=branchOn(s,z,o); if(o){ if(v){ std::swap(s,o); CS=s; } report(o,"div-by-zero","division by zero"); endPath(o,"violation"); return NEXT; } if(v) return fail(s,"div-by-zero","division by zero"); return NEXT; }
static Val iteV(Val c,Val a,Val b,unsigned w){ if(!c.e) return c.c?a:b; return fromEA(mkIte(c.e,toE(a,w),toE(b,w))); }
static R doCall(State*&s,KInst&ki);
static R intrinsic(State*&s,KInst&ki);
static uint64_t stepsSince=0; static bool timeUp=false;
// execute one instruction
static R step(State*&s){
  Frame*f=wtop(s); KInst&ki=f->f->in[f->pc]; ki.hit=true; nInstr++; s->steps++;
  auto A=[&](int i)->Val{ return opv(f,ki.ops[i]); };
  auto SET=[&](Val v){ f->L[ki.dest]=v; f->pc++; };
  switch(ki.opc){
  case Instruction::Br:
    if(ki.succ[1]<0){ jump(s,ki.succ[0]); return JUMPED; }
    { Val c=A(0); if(!c.e){ jump(s,c.c?ki.succ[0]:ki.succ[1]); return JUMPED; }
      State*o; bool v=branchOn(s,c.e,o); if(o){ jump(o,v?ki.succ[1]:ki.succ[0]); work.push_back(o); } jump(s,v?ki.succ[0]:ki.succ[1]); return JUMPED; }
  case Instruction::Switch:{ auto*si=cast<SwitchInst>(ki.I); Val c=A(0); unsigned w=ki.ow;
      auto bbIndex=[&](BasicBlock*b){ for(size_t i=0;i<f->f->bbs.size();i++) if(f->f->bbs[i]==b) return (int)i; return -1; };
      if(!c.e){ BasicBlock*d=si->getDefaultDest(); for(auto&cs:si->cases()) if(cs.getCaseValue()->getZExtValue()==c.c){ d=cs.getCaseSuccessor(); break; } jump(s,bbIndex(d)); return JUMPED; }
      std::vector<std::pair<BasicBlock*,E>> tg; E any=mkConst(0,1);
      for(auto&cs:si->cases()){ E q=mkEq(c.e,mkConst(cs.getCaseValue()->getZExtValue(),w)); any=mkOrB(any,q); bool fnd=false; for(auto&t:tg) if(t.first==cs.getCaseSuccessor()){ t.second=mkOrB(t.second,q); fnd=true; } if(!fnd) tg.push_back({cs.getCaseSuccessor(),q}); }
      { E d=mkNot(any); bool fnd=false; for(auto&t:tg) if(t.first==si->getDefaultDest()){ t.second=mkOrB(t.second,d); fnd=true; } if(!fnd) tg.push_back({si->getDefaultDest(),d}); }
      int mine=-1; std::vector<std::pair<int,ModelP>> oth; for(size_t i=0;i<tg.size();i++){ if(tg[i].second->isC()&&!tg[i].second->c) continue; if(evalExpr(tg[i].second,s->model)){ mine=i; continue; } ModelP m; if(solve(s,tg[i].second,m)) oth.push_back({(int)i,m}); }
      for(auto&o:oth){ State*n=cloneState(s); addC(n,tg[o.first].second); n->model=o.second; jump(n,bbIndex(tg[o.first].first)); work.push_back(n); }
      addC(s,tg[mine].second); jump(s,bbIndex(tg[mine].first)); return JUMPED; }
  case Instruction::Ret: return doRet(s,ki.nops?A(0):VC(0));
  case Instruction::Unreachable: return fail(s,"unreachable","unreachable instruction executed (undefined behaviour)");
  case Instruction::Alloca:{ auto*a=cast<AllocaInst>(ki.I); uint64_t sz=DL->getTypeAllocSize(a->getAllocatedType()); if(a->isArrayAllocation()){ Val n=A(0); if(n.e) forkConcretize(s,n,ki.ow,"alloca size"); f=wtop(s); sz*=n.c; if(sz>(64<<20)) return fail(s,"huge-alloca","alloca of "+std::to_string(sz)); } uint64_t ad=stackAlloc(s,sz,a->getAlign().value()); f->allocas.push_back(ad); SET(VC(ad)); return NEXT; }
  case Instruction::Load:{ Val p=A(0),o; if(p.e&&ki.ty->isPointerTy()){ std::set<uint64_t> vals; int budget=100; if(overLeaves(p.e,[](u128 v){ return v; },[](u128){ return mkConst(0,1); },vals,budget)&&vals.size()<=16) forkConcretize(s,p,64,"pointer loaded through a chosen pointer"); } R r=loadAny(s,ki,p,ki.ty,o); if(r!=NEXT) return r; f=wtop(s); SET(o); return NEXT; }
  case Instruction::Store:{ Val v=A(0),p=A(1); R r=storeAny(s,ki,p,v,ki.I->getOperand(0)->getType()); if(r!=NEXT) return r; wtop(s)->pc++; return NEXT; }
  case Instruction::GetElementPtr:{ if(ki.ty->isVectorTy()) return unsupported(s,"vector gep"); Val p=A(0); if(ki.goff) p=binop(s,Instruction::Add,p,VC((uint64_t)ki.goff),64); for(auto&g:ki.gscale){ Val ix=A(g.first); unsigned w=twidth(ki.I->getOperand(g.first)->getType()); if(w<64) ix=castop(Instruction::SExt,ix,w,64); if(g.second!=1) ix=binop(s,Instruction::Mul,ix,VC((uint64_t)g.second),64); p=binop(s,Instruction::Add,p,ix,64); } SET(p); return NEXT; }
  case Instruction::PHI: return unsupported(s,"phi out of place");
  case Instruction::Select:{ Val c=A(0),a=A(1),b=A(2); if(ki.I->getOperand(0)->getType()->isVectorTy()){ unsigned n=cast<FixedVectorType>(ki.ty)->getNumElements(),w=twidth(ki.ty->getScalarType()); std::vector<E> v; for(unsigned i=0;i<n;i++) v.push_back(mkIte(lane(c,i,1),lane(a,i,w),lane(b,i,w))); SET(Val{mkAgg(v),0}); return NEXT; }
      if(c.e&&ki.ty->isPointerTy()&&(optRace||a.e||b.e||!s->mem.find(a.c)||s->mem.find(a.c)!=s->mem.find(b.c))){ State*o; bool t=branchOn(s,c.e,o); if(o) work.push_back(o); f=wtop(s); SET(t?a:b); return NEXT; } SET(iteV(c,a,b,ki.w?ki.w:1)); return NEXT; }
  case Instruction::ICmp:{ auto p=cast<ICmpInst>(ki.I)->getPredicate(); if(ki.vec){ unsigned n=cast<FixedVectorType>(ki.ty)->getNumElements(),w=twidth(ki.I->getOperand(0)->getType()->getScalarType()); std::vector<E> v; for(unsigned i=0;i<n;i++) v.push_back(toE(icmp(p,fromE(lane(A(0),i,w)),fromE(lane(A(1),i,w)),w),1)); SET(Val{mkAgg(v),0}); return NEXT; } SET(known(s,icmp(p,A(0),A(1),ki.ow))); return NEXT; }
  case Instruction::FCmp:{ auto p=cast<FCmpInst>(ki.I)->getPredicate(); if(ki.vec){ unsigned n=cast<FixedVectorType>(ki.ty)->getNumElements(),w=twidth(ki.I->getOperand(0)->getType()->getScalarType()); std::vector<E> v; for(unsigned i=0;i<n;i++) v.push_back(toE(fcmp(p,fromE(lane(A(0),i,w)),fromE(lane(A(1),i,w)),w),1)); SET(Val{mkAgg(v),0}); return NEXT; } if(ki.ow>64) return unsupported(s,"long double compare"); SET(fcmp(p,A(0),A(1),ki.ow)); return NEXT; }
  case Instruction::FNeg:{ if(ki.vec) return unsupported(s,"vector fneg"); SET(fromE(mkBin(O_XOR,toE(A(0),ki.w),mkConst((u128)1<<(ki.w-1),ki.w)))); return NEXT; }
  case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: if(!ki.vec){ Val d=A(1); R r=checkDiv(s,d,ki.w); if(r!=NEXT) return r; f=wtop(s); SET(binop(s,ki.opc,A(0),d,ki.w)); return NEXT; } /* fallthrough */
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
    if(ki.vec){ unsigned n=cast<FixedVectorType>(ki.ty)->getNumElements(),w=twidth(ki.ty->getScalarType()); std::vector<E> v; for(unsigned i=0;i<n;i++) v.push_back(toE(binop(s,ki.opc,fromE(lane(A(0),i,w)),fromE(lane(A(1),i,w)),w),w)); SET(Val{mkAgg(v),0}); return NEXT; }
    if(ki.w>128||ki.ty->isX86_FP80Ty()) return unsupported(s,"wide arithmetic"); SET(binop(s,ki.opc,A(0),A(1),ki.w)); return NEXT;
  case Instruction::Freeze: SET(A(0)); return NEXT;
  case Instruction::BitCast: { Type*st=ki.I->getOperand(0)->getType(); if(st->isVectorTy()||ki.ty->isVectorTy()){ // via concat
        E e; if(st->isVectorTy()){ unsigned n=cast<FixedVectorType>(st)->getNumElements(),w=twidth(st->getScalarType()); Val a=A(0); if(n*w>128) return unsupported(s,"wide vector bitcast"); e=lane(a,n-1,w); for(int i=n-2;i>=0;i--) e=mkConcat(e,lane(a,i,w)); } else e=toE(A(0),ki.ow);
        if(ki.ty->isVectorTy()){ unsigned n=cast<FixedVectorType>(ki.ty)->getNumElements(),w=twidth(ki.ty->getScalarType()); std::vector<E> v; for(unsigned i=0;i<n;i++) v.push_back(mkExtract(e,i*w,w)); SET(Val{mkAgg(v),0}); } else SET(fromE(e)); return NEXT; } SET(A(0)); return NEXT; }
  case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:{
      Type*st=ki.I->getOperand(0)->getType(); if(st->isX86_FP80Ty()||ki.ty->isX86_FP80Ty()) return unsupported(s,"long double");
      if(st->isVectorTy()){ unsigned n=cast<FixedVectorType>(ki.ty)->getNumElements(),iw=twidth(st->getScalarType()),ow=twidth(ki.ty->getScalarType()); std::vector<E> v; for(unsigned i=0;i<n;i++) v.push_back(toE(castop(ki.opc,fromE(lane(A(0),i,iw)),iw,ow),ow)); SET(Val{mkAgg(v),0}); return NEXT; }
      SET(castop(ki.opc,A(0),ki.ow,ki.w)); return NEXT; }
  case Instruction::ExtractValue:{ auto*ev=cast<ExtractValueInst>(ki.I); Val a=A(0); E e=a.e; if(!e) { SET(VC(0)); return NEXT; } for(unsigned i:ev->indices()) e=e->kid(i); SET(fromEA(e)); return NEXT; }
  case Instruction::InsertValue:{ auto*iv=cast<InsertValueInst>(ki.I); Val a=A(0),b=A(1); E base=a.e; if(!base) base=constE(UndefValue::get(ki.ty)); E nv=b.e?b.e:mkConst(b.c,std::max(1u,twidth(iv->getInsertedValueOperand()->getType())));
      std::function<E(E,ArrayRef<unsigned>)> ins=[&](E x,ArrayRef<unsigned> ix)->E{ if(ix.empty()) return nv; std::vector<E> v; for(unsigned i=0;i<x->nk;i++) v.push_back(x->kid(i)); v[ix[0]]=ins(v[ix[0]],ix.drop_front()); return mkAgg(v); };
      SET(Val{ins(base,iv->getIndices()),0}); return NEXT; }
  case Instruction::ExtractElement:{ Val a=A(0),ix=A(1); unsigned w=ki.w; if(ix.e) forkConcretize(s,ix,64,"extractelement"); f=wtop(s); SET(fromE(lane(a,ix.c,w))); return NEXT; }
  case Instruction::InsertElement:{ Val a=A(0),b=A(1),ix=A(2); if(ix.e) forkConcretize(s,ix,64,"insertelement"); f=wtop(s); unsigned n=cast<FixedVectorType>(ki.ty)->getNumElements(),w=twidth(ki.ty->getScalarType()); std::vector<E> v; for(unsigned i=0;i<n;i++) v.push_back(i==ix.c?toE(b,w):lane(a,i,w)); SET(Val{mkAgg(v),0}); return NEXT; }
  case Instruction::ShuffleVector:{ auto*sv=cast<ShuffleVectorInst>(ki.I); Val a=A(0),b=A(1); unsigned n1=cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements(),w=twidth(ki.ty->getScalarType()); std::vector<E> v; for(int m:sv->getShuffleMask()) v.push_back(m<0?mkConst(0,w):(unsigned)m<n1?lane(a,m,w):lane(b,m-n1,w)); SET(Val{mkAgg(v),0}); return NEXT; }
  case Instruction::Call: case Instruction::Invoke: return doCall(s,ki);
  case Instruction::Resume:{ Val a=A(0); uint64_t ex=(uint64_t)a.e->kid(0)->c; popFrame(s); if(s->T().st.empty()) return fail(s,"uncaught-exception","exception leaves thread"); return unwind(s,ex); }
  case Instruction::LandingPad: return unsupported(s,"landingpad reached by fallthrough");
  case Instruction::Fence: f->pc++; return NEXT;
  case Instruction::AtomicCmpXchg:{ Val p=A(0),c=A(1),n=A(2); unsigned w=twidth(ki.I->getOperand(1)->getType()); Val old; R r=loadScalar(s,ki,p,w,old); if(r!=NEXT) return r; E eq=mkEq(toE(old,w),toE(c,w)); bool b; if(eq->isC()) b=eq->c; else { State*o; b=branchOn(s,eq,o); if(o) work.push_back(o); } if(b){ r=storeScalar(s,ki,p,n,w); if(r!=NEXT) return r; } f=wtop(s); SET(Val{mkAgg({toE(old,w),mkConst(b,1)}),0}); return NEXT; }
  case Instruction::AtomicRMW:{ auto*rm=cast<AtomicRMWInst>(ki.I); Val p=A(0),v=A(1),old; unsigned w=ki.w; R r=loadScalar(s,ki,p,w,old); if(r!=NEXT) return r; Val nv; switch(rm->getOperation()){ case AtomicRMWInst::Xchg:nv=v;break;case AtomicRMWInst::Add:nv=binop(s,Instruction::Add,old,v,w);break;case AtomicRMWInst::Sub:nv=binop(s,Instruction::Sub,old,v,w);break;case AtomicRMWInst::And:nv=binop(s,Instruction::And,old,v,w);break;case AtomicRMWInst::Or:nv=binop(s,Instruction::Or,old,v,w);break;case AtomicRMWInst::Xor:nv=binop(s,Instruction::Xor,old,v,w);break; case AtomicRMWInst::Max:nv=iteV(icmp(CmpInst::ICMP_SLT,old,v,w),v,old,w);break;case AtomicRMWInst::Min:nv=iteV(icmp(CmpInst::ICMP_SLT,old,v,w),old,v,w);break;case AtomicRMWInst::UMax:nv=iteV(icmp(CmpInst::ICMP_ULT,old,v,w),v,old,w);break;case AtomicRMWInst::UMin:nv=iteV(icmp(CmpInst::ICMP_ULT,old,v,w),old,v,w);break; default: return unsupported(s,"atomicrmw"); }
      r=storeScalar(s,ki,p,nv,w); if(r!=NEXT) return r; f=wtop(s); SET(old); return NEXT; }
  case Instruction::VAArg: return unsupported(s,"va_arg instruction");
  default: return unsupported(s,std::string("opcode ")+ki.I->getOpcodeName()); }
}
// copy n bytes (concrete n) ; handles overlap
static R memcopy(State*&s,KInst&ki,Val d,Val src,uint64_t n,bool mv=true){
  if(n==0) return NEXT; if(d.e) forkConcretize(s,d,64,"memcpy dest"); if(src.e) forkConcretize(s,src,64,"memcpy src");
  if(!mv&&d.c!=src.c&&(d.c<src.c?src.c-d.c:d.c-src.c)<n) return fail(s,"overlapping-copy","memory copied between overlapping ranges");
  Obj*so; Val soff; R r=resolve(s,src,n,false,so,soff,"memcpy read"); if(r!=NEXT) return r; 
  std::vector<uint8_t> db(so->data+soff.c,so->data+soff.c+n); std::vector<E> de; if(so->nsym) de.assign(so->sym+soff.c,so->sym+soff.c+n);
  Obj*o; Val doff; r=resolve(s,d,n,true,o,doff,"memcpy write"); if(r!=NEXT) return r; 
  if(optRace){ recAcc(s,ki,src.c,n,false); recAcc(s,ki,d.c,n,true); }
  o=s->mem.writable(o->addr); if(de.empty()&&!o->nsym) memcpy(o->data+doff.c,db.data(),n); else for(uint64_t i=0;i<n;i++){ if(!de.empty()&&de[i]) o->setE(doff.c+i,de[i]); else o->setC(doff.c+i,db[i]); } return NEXT; }
static R memfill(State*&s,KInst&ki,Val d,Val v,uint64_t n){ if(!n) return NEXT; if(d.e) forkConcretize(s,d,64,"memset dest"); Obj*o; Val off; R r=resolve(s,d,n,true,o,off,"memset"); if(r!=NEXT) return r; if(optRace) recAcc(s,ki,d.c,n,true); o=s->mem.writable(o->addr); for(uint64_t i=0;i<n;i++){ if(v.e) o->setE(off.c+i,mkExtract(v.e,0,8)); else o->setC(off.c+i,(uint8_t)v.c); } return NEXT; }
static R intrinsic(State*&s,KInst&ki){
  Frame*f=wtop(s); auto A=[&](int i)->Val{ return opv(f,ki.ops[i]); }; auto SET=[&](Val v){ f=wtop(s); if(ki.dest>=0) f->L[ki.dest]=v; f->pc++; return NEXT; };
  unsigned w=ki.ow;
  if(ki.vec) { // elementwise for a few
    switch(ki.intr){ case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::fabs:{ unsigned n=cast<FixedVectorType>(ki.ty)->getNumElements(),lw=twidth(ki.ty->getScalarType()); std::vector<E> v; for(unsigned i=0;i<n;i++){ E a=lane(A(0),i,lw),b=ki.intr==Intrinsic::fabs?nullptr:lane(A(1),i,lw); switch(ki.intr){case Intrinsic::smax:v.push_back(mkIte(mkSlt(a,b),b,a));break;case Intrinsic::smin:v.push_back(mkIte(mkSlt(a,b),a,b));break;case Intrinsic::umax:v.push_back(mkIte(mkUlt(a,b),b,a));break;case Intrinsic::umin:v.push_back(mkIte(mkUlt(a,b),a,b));break;default:v.push_back(mkBin(O_AND,a,mkConst(maskOf(lw)>>1,lw)));} } return SET(Val{mkAgg(v),0}); } default: return unsupported(s,"vector intrinsic "+cast<CallBase>(ki.I)->getCalledFunction()->getName().str()); } }
  switch(ki.intr){
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:{ Val p=A(1); if(!p.e&&s->thr.size()>1){ Obj*o=s->mem.find(p.c); if(o&&o->addr==p.c&&o->kind==K_STACK&&!o->freed){ o=s->mem.writable(p.c); memset(o->data,0xAA,o->size); if(o->sym){ ::free(o->sym); o->sym=nullptr; o->nsym=0; } } } return SET(VC(0)); }
  case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::donothing: return SET(VC(0));
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::ssa_copy: return SET(A(0));
  case Intrinsic::is_constant: return SET(VC(0));
  case Intrinsic::objectsize:{ Val mn=A(1); return SET(VC(mn.c?0:~0ull)); }
  case Intrinsic::stacksave: return SET(VC(0)); case Intrinsic::stackrestore: return SET(VC(0));
  case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: return doAbort(s,"abort","trap executed",1);
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:{ Val d=A(0),sr=A(1),n=A(2); if(n.e) forkConcretize(s,n,64,"memcpy length"); R r=memcopy(s,ki,d,sr,n.c,ki.intr==Intrinsic::memmove); if(r!=NEXT) return r; return SET(VC(0)); }
  case Intrinsic::memset:{ Val d=A(0),v=A(1),n=A(2); if(n.e) forkConcretize(s,n,64,"memset length"); R r=memfill(s,ki,d,v,n.c); if(r!=NEXT) return r; return SET(VC(0)); }
  case Intrinsic::vastart:{ // build va_list
    Frame*fr=wtop(s); uint64_t ov=stackAlloc(s,std::max<size_t>(8,fr->va.size()*8),16); fr->allocas.push_back(ov); uint64_t rs=stackAlloc(s,176,16); fr->allocas.push_back(rs); 
    Obj*o=s->mem.writable(ov); for(size_t i=0;i<fr->va.size();i++){ unsigned vw=fr->va[i].second; E e=toE(fr->va[i].first,vw); if(vw<64) e=mkZExt(e,64); else if(vw>64) return unsupported(s,"wide vararg"); writeBytes(o,8*i,fromE(e),8); }
    Val p=opv(fr,ki.ops[0]); R r; if((r=storeScalar(s,ki,p,VC(48),32))!=NEXT) return r; storeScalar(s,ki,VC(p.c+4),VC(176),32); storeScalar(s,ki,VC(p.c+8),VC(ov),64); storeScalar(s,ki,VC(p.c+16),VC(rs),64); return SET(VC(0)); }
  case Intrinsic::vaend: return SET(VC(0));
  case Intrinsic::vacopy:{ R r=memcopy(s,ki,A(0),A(1),24); if(r!=NEXT) return r; return SET(VC(0)); }
  case Intrinsic::threadlocal_address:{ Val p=A(0); if(s->cur==0) return SET(p); uint64_t key=p.c^((uint64_t)s->cur<<56); auto it=s->tls.find(key); if(it!=s->tls.end()) return SET(VC(it->second)); auto*gv=dyn_cast<GlobalVariable>(ki.I->getOperand(0)); uint64_t sz=gv?DL->getTypeAllocSize(gv->getValueType()):8; uint64_t a=heapAlloc(s,sz,K_GLOBAL,0); s->liveBlocks--; if(gv&&gv->hasInitializer()) writeConst(s->mem.writable(a),0,gv->getInitializer()); s->tls[key]=a; return SET(VC(a)); }
  case Intrinsic::eh_typeid_for: return SET(VC(tiId(A(0).c)));
  case Intrinsic::umax: return SET(iteV(icmp(CmpInst::ICMP_ULT,A(0),A(1),w),A(1),A(0),w)); case Intrinsic::umin: return SET(iteV(icmp(CmpInst::ICMP_ULT,A(0),A(1),w),A(0),A(1),w));
  case Intrinsic::smax: return SET(iteV(icmp(CmpInst::ICMP_SLT,A(0),A(1),w),A(1),A(0),w)); case Intrinsic::smin: return SET(iteV(icmp(CmpInst::ICMP_SLT,A(0),A(1),w),A(0),A(1),w));
  case Intrinsic::abs:{ Val a=A(0); return SET(iteV(icmp(CmpInst::ICMP_SLT,a,VC(0),w),binop(s,Instruction::Sub,VC(0),a,w),a,w)); }
  case Intrinsic::bswap:{ E e=toE(A(0),w); E r=mkExtract(e,0,8); for(unsigned i=8;i<w;i+=8) r=mkConcat(r,mkExtract(e,i,8)); return SET(fromE(r)); }
  case Intrinsic::bitreverse:{ E e=toE(A(0),w); E r=mkExtract(e,0,1); for(unsigned i=1;i<w;i++) r=mkConcat(r,mkExtract(e,i,1)); return SET(fromE(r)); }
  case Intrinsic::ctpop:{ E e=toE(A(0),w); E r=mkConst(0,w); for(unsigned i=0;i<w;i++) r=mkBin(O_ADD,r,mkZExt(mkExtract(e,i,1),w)); return SET(fromE(r)); }
  case Intrinsic::ctlz:{ E e=toE(A(0),w); E r=mkConst(w,w); for(unsigned i=0;i<w;i++) r=mkIte(mkExtract(e,i,1),mkConst(w-1-i,w),r); return SET(fromE(r)); }
  case Intrinsic::cttz:{ E e=toE(A(0),w); E r=mkConst(w,w); for(int i=w-1;i>=0;i--) r=mkIte(mkExtract(e,i,1),mkConst(i,w),r); return SET(fromE(r)); }
  case Intrinsic::fshl: case Intrinsic::fshr:{ Val c=A(2); E sh=mkBin(O_UREM,toE(c,w),mkConst(w,w)); E a=toE(A(0),w),b=toE(A(1),w); E inv=mkBin(O_SUB,mkConst(w,w),sh); E z=mkEq(sh,mkConst(0,w)); E r; if(ki.intr==Intrinsic::fshl) r=mkIte(z,a,mkBin(O_OR,mkBin(O_SHL,a,sh),mkBin(O_LSHR,b,inv))); else r=mkIte(z,b,mkBin(O_OR,mkBin(O_LSHR,b,sh),mkBin(O_SHL,a,inv))); return SET(fromE(r)); }
  case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:{
    if(w>64) return unsupported(s,"wide overflow op"); bool sg=ki.intr==Intrinsic::sadd_with_overflow||ki.intr==Intrinsic::ssub_with_overflow||ki.intr==Intrinsic::smul_with_overflow; bool mul=ki.intr==Intrinsic::umul_with_overflow||ki.intr==Intrinsic::smul_with_overflow; bool sub=ki.intr==Intrinsic::usub_with_overflow||ki.intr==Intrinsic::ssub_with_overflow; unsigned W=mul?2*w:w+1;
    E a=toE(A(0),w),b=toE(A(1),w); E x=sg?mkSExt(a,W):mkZExt(a,W),y=sg?mkSExt(b,W):mkZExt(b,W); E r=mkBin(mul?O_MUL:sub?O_SUB:O_ADD,x,y); E lo=mkExtract(r,0,w); E ov=mkNot(mkEq(sg?mkSExt(lo,W):mkZExt(lo,W),r)); return SET(Val{mkAgg({lo,ov}),0}); }
  case Intrinsic::uadd_sat:{ E a=toE(A(0),w),b=toE(A(1),w); E r=mkBin(O_ADD,a,b); return SET(fromE(mkIte(mkUlt(r,a),mkConst(maskOf(w),w),r))); }
  case Intrinsic::usub_sat:{ E a=toE(A(0),w),b=toE(A(1),w); return SET(fromE(mkIte(mkUlt(a,b),mkConst(0,w),mkBin(O_SUB,a,b)))); }
  case Intrinsic::fabs: return SET(fromE(mkBin(O_AND,toE(A(0),w),mkConst(maskOf(w)>>1,w))));
  case Intrinsic::copysign: return SET(fromE(mkBin(O_OR,mkBin(O_AND,toE(A(0),w),mkConst(maskOf(w)>>1,w)),mkBin(O_AND,toE(A(1),w),mkConst((u128)1<<(w-1),w)))));
  case Intrinsic::sqrt: return SET(fromE(mkF1(O_FSQRT,toE(A(0),w),w)));
  case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return SET(fromE(mkF1(O_FRINT,toE(A(0),w),w,0))); case Intrinsic::round: return SET(fromE(mkF1(O_FRINT,toE(A(0),w),w,1))); case Intrinsic::ceil: return SET(fromE(mkF1(O_FRINT,toE(A(0),w),w,2))); case Intrinsic::floor: return SET(fromE(mkF1(O_FRINT,toE(A(0),w),w,3))); case Intrinsic::trunc: return SET(fromE(mkF1(O_FRINT,toE(A(0),w),w,4)));
  case Intrinsic::fmuladd: return SET(fromE(mkF2(O_FADD,mkF2(O_FMUL,toE(A(0),w),toE(A(1),w)),toE(A(2),w))));
  case Intrinsic::maxnum: { E a=toE(A(0),w),b=toE(A(1),w); return SET(fromE(mkIte(mkF1(O_FISNAN,b,1),a,mkIte(mkF2(O_FLT,a,b),b,mkIte(mkF1(O_FISNAN,a,1),b,a))))); }
  case Intrinsic::minnum: { E a=toE(A(0),w),b=toE(A(1),w); return SET(fromE(mkIte(mkF1(O_FISNAN,b,1),a,mkIte(mkF2(O_FLT,b,a),b,mkIte(mkF1(O_FISNAN,a,1),b,a))))); }
  case Intrinsic::is_fpclass: { Val m=A(1); if((m.c&~3ull)==0) return SET(fromE(mkF1(O_FISNAN,toE(A(0),w),1))); return unsupported(s,"is.fpclass"); }
  case Intrinsic::lrint: case Intrinsic::llrint: return SET(fromE(mkF1(O_FTOSI,mkF1(O_FRINT,toE(A(0),w),w,0),64))); case Intrinsic::lround: case Intrinsic::llround: return SET(fromE(mkF1(O_FTOSI,mkF1(O_FRINT,toE(A(0),w),w,1),64)));
  case Intrinsic::ptrmask: return SET(binop(s,Instruction::And,A(0),A(1),64));
  case Intrinsic::load_relative:{ Val p=A(0),o=A(1); Val v; R r=loadScalar(s,ki,binop(s,Instruction::Add,p,o,64),32,v); if(r!=NEXT) return r; return SET(binop(s,Instruction::Add,p,castop(Instruction::SExt,v,32,64),64)); }
  default: {
    auto*cf=cast<CallBase>(ki.I)->getCalledFunction(); std::string n=cf->getName().str(); auto base=n.substr(5,n.find('.',5)-5);
    auto it=builtins.find("m_"+base+(w==32?"f":"")); if(it!=builtins.end()){ std::vector<Val> a; for(unsigned i=0;i<cast<CallBase>(ki.I)->arg_size();i++) a.push_back(A(i)); Val ret=VC(0); R r=it->second(s,ki,a.data(),a.size(),ret); if(r!=NEXT) return r; return SET(ret); }
    return unsupported(s,"intrinsic "+n); } }
}
static R callFunction(State*&s,KInst&ki,Function*F,std::vector<Val>&a);
static R doCall(State*&s,KInst&ki){
  auto*cb=cast<CallBase>(ki.I);
  if(ki.intr) { if(ki.opc==Instruction::Invoke){ R r=intrinsic(s,ki); if(r==NEXT){ Frame*f=wtop(s); f->pc--; jump(s,ki.succ[0]); return JUMPED; } return r; } return intrinsic(s,ki); }
  Frame*f=s->top(); 
  if(cb->isInlineAsm()){ auto*ia=cast<InlineAsm>(cb->getCalledOperand()); if(ia->getAsmString().empty()){ wtop(s)->pc++; return NEXT; } return unsupported(s,"inline asm"); }
  Function*F=nullptr; Value*cv=cb->getCalledOperand(); if(auto*al=dyn_cast<GlobalAlias>(cv)) cv=al->getAliaseeObject(); F=dyn_cast<Function>(cv);
  std::vector<Val> a; int n=cb->arg_size(); a.reserve(n); for(int i=0;i<n;i++) a.push_back(opv(f,ki.ops[i]));
  if(!F){ // indirect
    int ci=-1; for(int i=0;i<ki.nops;i++) if(ki.I->getOperand(i)==cb->getCalledOperand()&&i>=n) ci=i; Val p=opv(f,ki.ops[ci]); if(p.e) forkConcretize(s,p,64,"indirect call target"); auto it=faddr.find(p.c); if(it==faddr.end()) return fail(s,"bad-call","indirect call to non-function address ("+ptrDesc(s,p.c)+")"); F=it->second; }
  // byval args: copy
  for(int i=0;i<n;i++) if(cb->isByValArgument(i)){ Type*t=cb->getParamByValType(i); uint64_t sz=DL->getTypeAllocSize(t); uint64_t na=stackAlloc(s,sz,16); wtop(s)->allocas.push_back(na); R r=memcopy(s,ki,VC(na),a[i],sz); if(r!=NEXT) return r; a[i]=VC(na); }
  return callFunction(s,ki,F,a); }
static R callFunction(State*&s,KInst&ki,Function*F,std::vector<Val>&a){
  int n=a.size();
  auto bi=builtins.find(F->getName().str());
  if(bi!=builtins.end()&&(F->isDeclaration()||F->getName().startswith("sym_")||F->getName().startswith("__sx_"))){ Val ret=VC(0); R r=bi->second(s,ki,a.data(),n,ret); if(r!=NEXT) return r; Frame*f=wtop(s); if(ki.dest>=0) f->L[ki.dest]=ret; if(ki.opc==Instruction::Invoke) jump(s,ki.succ[0]); else f->pc++; return JUMPED; }
  if(F->isDeclaration()){ extCalls[F->getName().str()]++; return unsupported(s,"call of external function "+F->getName().str()); }
  if(s->T().st.size()>2000) return fail(s,"stack-overflow","recursion deeper than 2000 frames");
  wtop(s); KFunc*k=getKF(F); auto*cb=cast<CallBase>(ki.I);
  if(F->isVarArg()){ std::vector<std::pair<Val,unsigned>> va; int fixed=F->arg_size(); for(int i=fixed;i<n;i++) va.push_back({a[i],std::max(1u,twidth(cb->getArgOperand(i)->getType()))}); pushFrame(s,k,a.data(),n); s->top()->va=va; }
  else { if(n<(int)F->arg_size()) return fail(s,"bad-call","call with too few arguments to "+F->getName().str()); pushFrame(s,k,a.data(),n); }
  return JUMPED; }
