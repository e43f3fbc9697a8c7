// symx: bit-vector / floating-point expression DAG (hash-consed) with simplification,
// a concrete evaluator, and a translator to Z3.
#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include <memory>
#include <cassert>
#include <cstring>
typedef unsigned __int128 u128;
typedef __int128 s128;

enum Op : uint8_t {
  O_CONST, O_VAR,
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_ULT, O_SLT,
  O_ITE, O_CONCAT, O_EXTRACT, O_SEXT,
  // floating point over IEEE bit patterns (w = 32 or 64 for results)
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FSQRT,
  O_FEQ, O_FLT, O_FLE,           // ordered comparisons -> 1 bit
  O_FISNAN,
  O_FTOSI, O_FTOUI,              // aux unused, round toward zero
  O_SITOF, O_UITOF,              // RNE
  O_FTOF,                        // RNE
  O_FRINT,                       // aux: 0 RNE(rint/nearbyint/roundeven) 1 RNA(round) 2 RTP(ceil) 3 RTN(floor) 4 RTZ(trunc)
  O_AGG
};

struct VarSet { std::vector<uint64_t> w; // bitset
  bool intersects(const VarSet&o) const { size_t n=std::min(w.size(),o.w.size()); for(size_t i=0;i<n;i++) if(w[i]&o.w[i]) return true; return false; }
  void add(const VarSet&o){ if(o.w.size()>w.size()) w.resize(o.w.size()); for(size_t i=0;i<o.w.size();i++) w[i]|=o.w[i]; }
  bool has(unsigned i) const { return i/64<w.size() && (w[i/64]>>(i%64)&1); }
  void set(unsigned i){ if(w.size()<=i/64) w.resize(i/64+1); w[i/64]|=1ull<<(i%64); }
  bool empty() const { for(auto x:w) if(x) return false; return true; }
};

struct Expr {
  Op op; uint16_t w; uint32_t aux; uint32_t id; uint64_t h;
  Expr* k[3]; uint32_t nk; Expr** kx;   // kx for AGG
  u128 c;
  const VarSet* vars;
  uint64_t egen; u128 ev;
  void* z; void* zf;                    // Z3 translations (bv, fp)
  Expr* kid(unsigned i) const { return kx ? kx[i] : k[i]; }
  bool isC() const { return op==O_CONST; }
};
typedef Expr* E;

static inline u128 maskOf(unsigned w){ return w>=128 ? ~(u128)0 : (((u128)1<<w)-1); }

E mkConst(u128 v, unsigned w);
E mkVar(unsigned idx, unsigned w);
unsigned newVar(const std::string&name, unsigned w); // returns index
extern std::vector<std::string> varNames; extern std::vector<uint16_t> varWidths;
E mkBin(Op op, E a, E b);            // ADD..ASHR
E mkEq(E a,E b); E mkUlt(E a,E b); E mkSlt(E a,E b);
E mkNot(E a); E mkAndB(E a,E b); E mkOrB(E a,E b);
E mkIte(E c,E a,E b);
E mkConcat(E hi,E lo); E mkExtract(E a,unsigned off,unsigned w);
E mkZExt(E a,unsigned w); E mkSExt(E a,unsigned w);
E mkF2(Op op,E a,E b); E mkF1(Op op,E a,unsigned w,unsigned aux=0);
E mkAgg(const std::vector<E>&v);
u128 umaxOf(E e, int depth=12); u128 uminOf(E e, int depth=12);
size_t exprCount();
std::string exprStr(E e,int depth=6);

struct Model { std::vector<uint64_t> v; uint64_t get(unsigned i) const { return i<v.size()?v[i]:0; } };
typedef std::shared_ptr<const Model> ModelP;
u128 evalExpr(E e, const ModelP& m);
