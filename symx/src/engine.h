#pragma once
#include "expr.h"
#include "solver.h"
#include "mem.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <functional>
#include <string>
#include <vector>
struct Val { E e; uint64_t c; };
static inline Val VC(uint64_t c){ return Val{nullptr,c}; }
struct ShRec { int thr; uint32_t inst; bool wr; uint32_t clk; };
struct ShBucket { std::unordered_map<uint64_t,std::vector<ShRec>> m; };
typedef std::vector<uint32_t> VClk;
struct KInst { llvm::Instruction*I; unsigned opc; int dest; int nops; int* ops; unsigned w; // result width (bits) if scalar
  int succ[2]; int64_t goff; std::vector<std::pair<int,int64_t>> gscale; int ow; // operand width
  int bb; llvm::Type*ty; void* handler; bool hit; int intr; uint32_t uid; bool vec; };
struct KFunc { llvm::Function*F; std::vector<KInst> in; std::vector<int> bbStart; std::vector<llvm::BasicBlock*> bbs; int nslots; std::vector<Val> consts; bool model; bool executed=false; std::string file; std::vector<std::vector<int>> live; };
struct Frame { int rc=1; KFunc*f; int pc=0; int prevBB=-1,curBB=0; std::vector<Val> L; std::vector<uint64_t> allocas; std::vector<std::pair<Val,unsigned>> va; bool tryB=false; uint64_t freeExn=0; uint64_t spSave=0; int atexitMode=0; };
struct ExnInfo { uint64_t ti,dtor; int handlers; uint64_t adj; bool rethrown; };
struct Thread { std::vector<Frame*> st; uint64_t sp,hp; bool done=false; std::vector<uint64_t> caught; VClk vc; };
struct InputRec { std::string name; std::vector<E> vals; unsigned w; std::shared_ptr<InputRec> prev; };
struct ObsRec { std::string name; E val; std::shared_ptr<ObsRec> prev; };
struct State {
  std::vector<Thread> thr; int cur=0; MemMap mem; std::vector<E> pc; ModelP model; std::shared_ptr<InputRec> inputs; std::shared_ptr<ObsRec> obs;
  std::map<uint64_t,ExnInfo> exn; uint64_t curExn=0; int nextEntry=0; uint64_t steps=0; unsigned depth=0; int64_t liveBlocks=0; std::map<uint64_t,uint64_t> tls; uint64_t id=0; std::vector<std::pair<uint64_t,uint64_t>> atexits; uint64_t switches=0; std::vector<uint64_t> streak; std::string note; std::vector<std::shared_ptr<ShBucket>> sh; std::map<uint64_t,VClk> rel;
  State(){} State(const State&o); ~State();
  Thread& T(){ return thr[cur]; }
  Frame* top(){ return thr[cur].st.back(); }
};
