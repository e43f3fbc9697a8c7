#include "solver.h"
#include <z3.h>
#include <chrono>
#include <unordered_map>
#include <map>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cmath>
SolverStats gSS; unsigned gQueryTimeoutMs=60000;
static Z3_context C; static Z3_sort bvS[129]; static Z3_sort f32,f64;
static Z3_sort bv(unsigned w){ if(!bvS[w]){ bvS[w]=Z3_mk_bv_sort(C,w); Z3_inc_ref(C,Z3_sort_to_ast(C,bvS[w])); } return bvS[w]; }
static void err(Z3_context c,Z3_error_code e){ fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(c,e)); exit(3); }
void solverInit(){ Z3_config cfg=Z3_mk_config(); Z3_set_param_value(cfg,"model","true"); C=Z3_mk_context(cfg); Z3_set_error_handler(C,err);
  f32=Z3_mk_fpa_sort_32(C); f64=Z3_mk_fpa_sort_64(C); Z3_inc_ref(C,Z3_sort_to_ast(C,f32)); Z3_inc_ref(C,Z3_sort_to_ast(C,f64)); }
static Z3_ast zbv(E e);
static Z3_ast zfp(E e);
static bool isFpOp(Op o){ return (o>=O_FADD&&o<=O_FSQRT)||o==O_SITOF||o==O_UITOF||o==O_FTOF||o==O_FRINT; }
static Z3_ast rne(){ static Z3_ast r=nullptr; if(!r){ r=Z3_mk_fpa_rne(C); Z3_inc_ref(C,r);} return r; }
static Z3_ast rtz(){ static Z3_ast r=nullptr; if(!r){ r=Z3_mk_fpa_rtz(C); Z3_inc_ref(C,r);} return r; }
static Z3_sort fs(unsigned w){ return w==32?f32:f64; }
static Z3_ast keep(Z3_ast a){ Z3_inc_ref(C,a); return a; }
static Z3_ast numeral(u128 v,unsigned w){
  if(w<=64) return Z3_mk_unsigned_int64(C,(uint64_t)v,bv(w));
  Z3_ast hi=Z3_mk_unsigned_int64(C,(uint64_t)(v>>64),bv(w-64)), lo=Z3_mk_unsigned_int64(C,(uint64_t)v,bv(64)); return Z3_mk_concat(C,hi,lo); }
// boolean translation for width-1
static std::unordered_map<E,Z3_ast> boolMemo;
static Z3_ast zbool(E e){
  assert(e->w==1);
  auto it=boolMemo.find(e); if(it!=boolMemo.end()) return it->second;
  Z3_ast r;
  switch(e->op){
  case O_CONST: r=e->c?Z3_mk_true(C):Z3_mk_false(C); break;
  case O_EQ: r=e->k[0]->w==1?Z3_mk_iff(C,zbool(e->k[0]),zbool(e->k[1])):Z3_mk_eq(C,zbv(e->k[0]),zbv(e->k[1])); break;
  case O_ULT: r=Z3_mk_bvult(C,zbv(e->k[0]),zbv(e->k[1])); break;
  case O_SLT: r=Z3_mk_bvslt(C,zbv(e->k[0]),zbv(e->k[1])); break;
  case O_AND: { Z3_ast a[2]={zbool(e->k[0]),zbool(e->k[1])}; r=Z3_mk_and(C,2,a); break; }
  case O_OR: { Z3_ast a[2]={zbool(e->k[0]),zbool(e->k[1])}; r=Z3_mk_or(C,2,a); break; }
  case O_XOR: if(e->k[1]->isC()&&e->k[1]->c) r=Z3_mk_not(C,zbool(e->k[0])); else r=Z3_mk_xor(C,zbool(e->k[0]),zbool(e->k[1])); break;
  case O_ITE: r=Z3_mk_ite(C,zbool(e->k[0]),zbool(e->k[1]),zbool(e->k[2])); break;
  case O_FEQ: r=Z3_mk_fpa_eq(C,zfp(e->k[0]),zfp(e->k[1])); break;
  case O_FLT: r=Z3_mk_fpa_lt(C,zfp(e->k[0]),zfp(e->k[1])); break;
  case O_FLE: r=Z3_mk_fpa_leq(C,zfp(e->k[0]),zfp(e->k[1])); break;
  case O_FISNAN: r=Z3_mk_fpa_is_nan(C,zfp(e->k[0])); break;
  default: r=Z3_mk_eq(C,zbv(e),numeral(1,1)); }
  keep(r); boolMemo[e]=r; return r;
}
static Z3_ast zbv(E e){
  if(e->z) return (Z3_ast)e->z;
  Z3_ast r;
  unsigned w=e->w;
  switch(e->op){
  case O_CONST: r=numeral(e->c,w); break;
  case O_VAR: { char b[32]; snprintf(b,32,"v%u",e->aux); r=Z3_mk_const(C,Z3_mk_string_symbol(C,b),bv(w)); break; }
  case O_ADD: r=Z3_mk_bvadd(C,zbv(e->k[0]),zbv(e->k[1])); break;
  case O_SUB: r=Z3_mk_bvsub(C,zbv(e->k[0]),zbv(e->k[1])); break;
  case O_MUL: r=Z3_mk_bvmul(C,zbv(e->k[0]),zbv(e->k[1])); break;
  case O_UDIV: r=Z3_mk_bvudiv(C,zbv(e->k[0]),zbv(e->k[1])); break;
  case O_SDIV: r=Z3_mk_bvsdiv(C,zbv(e->k[0]),zbv(e->k[1])); break;
  case O_UREM: r=Z3_mk_bvurem(C,zbv(e->k[0]),zbv(e->k[1])); break;
  case O_SREM: r=Z3_mk_bvsrem(C,zbv(e->k[0]),zbv(e->k[1])); break;
  case O_SHL: r=Z3_mk_bvshl(C,zbv(e->k[0]),zbv(e->k[1])); break;
  case O_LSHR: r=Z3_mk_bvlshr(C,zbv(e->k[0]),zbv(e->k[1])); break;
  case O_ASHR: r=Z3_mk_bvashr(C,zbv(e->k[0]),zbv(e->k[1])); break;
  case O_AND: if(w==1) goto viaBool; r=Z3_mk_bvand(C,zbv(e->k[0]),zbv(e->k[1])); break;
  case O_OR: if(w==1) goto viaBool; r=Z3_mk_bvor(C,zbv(e->k[0]),zbv(e->k[1])); break;
  case O_XOR: if(e->k[1]->isC()&&e->k[1]->c==maskOf(w)) r=Z3_mk_bvnot(C,zbv(e->k[0])); else r=Z3_mk_bvxor(C,zbv(e->k[0]),zbv(e->k[1])); break;
  case O_ITE: r=Z3_mk_ite(C,zbool(e->k[0]),zbv(e->k[1]),zbv(e->k[2])); break;
  case O_CONCAT: r=(e->k[0]->isC()&&e->k[0]->c==0)?Z3_mk_zero_ext(C,e->k[0]->w,zbv(e->k[1])):Z3_mk_concat(C,zbv(e->k[0]),zbv(e->k[1])); break;
  case O_EXTRACT: r=Z3_mk_extract(C,e->aux+w-1,e->aux,zbv(e->k[0])); break;
  case O_SEXT: r=Z3_mk_sign_ext(C,w-e->k[0]->w,zbv(e->k[0])); break;
  case O_EQ: case O_ULT: case O_SLT: case O_FEQ: case O_FLT: case O_FLE: case O_FISNAN:
  viaBool: r=Z3_mk_ite(C,zbool(e),numeral(1,1),numeral(0,1)); break;
  case O_FTOSI: case O_FTOUI: {
    Z3_ast f=zfp(e->k[0]); Z3_sort s=fs(e->k[0]->w);
    Z3_ast rr=Z3_mk_fpa_round_to_integral(C,rtz(),f);
    if(e->op==O_FTOSI){
      Z3_ast lo=Z3_mk_fpa_numeral_double(C,-ldexp(1.0,(int)w-1),s), hi=Z3_mk_fpa_numeral_double(C,ldexp(1.0,(int)w-1),s);
      Z3_ast c[2]={Z3_mk_fpa_geq(C,rr,lo),Z3_mk_fpa_lt(C,rr,hi)};
      r=Z3_mk_ite(C,Z3_mk_and(C,2,c),Z3_mk_fpa_to_sbv(C,rtz(),f,w),numeral((u128)1<<(w-1),w));
    } else {
      Z3_ast lo=Z3_mk_fpa_numeral_double(C,0,s), hi=Z3_mk_fpa_numeral_double(C,ldexp(1.0,(int)w),s);
      Z3_ast c[2]={Z3_mk_fpa_geq(C,rr,lo),Z3_mk_fpa_lt(C,rr,hi)};
      r=Z3_mk_ite(C,Z3_mk_and(C,2,c),Z3_mk_fpa_to_ubv(C,rtz(),f,w),numeral(maskOf(w),w));
    } break; }
  default:
    if(isFpOp(e->op)){ r=Z3_mk_fpa_to_ieee_bv(C,zfp(e)); break; }
    fprintf(stderr,"zbv: op %d\n",e->op); abort(); }
  keep(r); e->z=r; return r;
}
static Z3_ast zfp(E e){
  if(e->zf) return (Z3_ast)e->zf;
  Z3_ast r; unsigned w=e->w;
  switch(e->op){
  case O_FADD: r=Z3_mk_fpa_add(C,rne(),zfp(e->k[0]),zfp(e->k[1])); break;
  case O_FSUB: r=Z3_mk_fpa_sub(C,rne(),zfp(e->k[0]),zfp(e->k[1])); break;
  case O_FMUL: r=Z3_mk_fpa_mul(C,rne(),zfp(e->k[0]),zfp(e->k[1])); break;
  case O_FDIV: r=Z3_mk_fpa_div(C,rne(),zfp(e->k[0]),zfp(e->k[1])); break;
  case O_FREM: fprintf(stderr,"symbolic fmod unsupported\n"); exit(3);
  case O_FSQRT: r=Z3_mk_fpa_sqrt(C,rne(),zfp(e->k[0])); break;
  case O_SITOF: r=Z3_mk_fpa_to_fp_signed(C,rne(),zbv(e->k[0]),fs(w)); break;
  case O_UITOF: r=Z3_mk_fpa_to_fp_unsigned(C,rne(),zbv(e->k[0]),fs(w)); break;
  case O_FTOF: r=Z3_mk_fpa_to_fp_float(C,rne(),zfp(e->k[0]),fs(w)); break;
  case O_FRINT: { Z3_ast rm=e->aux==0?rne():e->aux==1?Z3_mk_fpa_rna(C):e->aux==2?Z3_mk_fpa_rtp(C):e->aux==3?Z3_mk_fpa_rtn(C):rtz(); r=Z3_mk_fpa_round_to_integral(C,rm,zfp(e->k[0])); break; }
  case O_ITE: r=Z3_mk_ite(C,zbool(e->k[0]),zfp(e->k[1]),zfp(e->k[2])); break;
  default: r=Z3_mk_fpa_to_fp_bv(C,zbv(e),fs(w)); }
  keep(r); e->zf=r; return r;
}

// ---- integer translation: linear arithmetic over bit-vectors decided in LIA.  Every term is an integer congruent to the bit-vector mod 2^w with a known interval; it is reduced to
// the canonical unsigned or signed range only where that matters (comparison, division, extension), so sums and differences that cannot wrap stay linear.
struct IBail{};
struct IV{ Z3_ast a; s128 lo,hi; };
static std::unordered_map<E,IV> ivMemo,ivU,ivS; static std::unordered_map<E,Z3_ast> ibMemo; static Z3_sort intS;
static Z3_ast inum(s128 v){ char b[64]; char*p=b+63; *p=0; bool n=v<0; u128 x=n?(u128)0-(u128)v:(u128)v; do{ *--p='0'+(int)(x%10); x/=10; }while(x); if(n) *--p='-'; return Z3_mk_numeral(C,p,intS); }
static Z3_ast iadd(Z3_ast a,Z3_ast b){ Z3_ast k[2]={a,b}; return Z3_mk_add(C,2,k); }
static Z3_ast imul(Z3_ast a,s128 c){ Z3_ast k[2]={inum(c),a}; return Z3_mk_mul(C,2,k); }
static IV ilazy(E e); static Z3_ast ibool(E e);
static IV icanon(E e,s128 base){	// into [base, base+2^w)
	IV v=ilazy(e); s128 M=(s128)1<<e->w; if(v.lo>=base&&v.hi<base+M) return v;
	auto fl=[&](s128 x){ s128 q=(x-base)/M; if((x-base)%M<0) q--; return q; }; s128 a=fl(v.lo),b=fl(v.hi);
	IV r; r.lo=base; r.hi=base+M-1;
	if(a==b){ r.a=iadd(v.a,inum(-a*M)); r.lo=v.lo-a*M; r.hi=v.hi-a*M; return r; }
	if(b-a<=3){ Z3_ast t=iadd(v.a,inum(-b*M)); for(s128 q=b-1;q>=a;q--) t=Z3_mk_ite(C,Z3_mk_lt(C,v.a,inum(base+(q+1)*M)),iadd(v.a,inum(-q*M)),t); r.a=t; return r; }
	Z3_ast t=base?iadd(v.a,inum(-base)):v.a; t=Z3_mk_mod(C,t,inum(M)); r.a=base?iadd(t,inum(base)):t; return r; }
static IV iuns(E e){ auto it=ivU.find(e); if(it!=ivU.end()) return it->second; IV r=icanon(e,0); keep(r.a); return ivU[e]=r; }
static IV isgn(E e){ auto it=ivS.find(e); if(it!=ivS.end()) return it->second; IV r=icanon(e,-((s128)1<<(e->w-1))); keep(r.a); return ivS[e]=r; }
static s128 sconst(E e){ s128 c=(s128)e->c; if(e->c>>(e->w-1)&1) c-=(s128)1<<e->w; return c; }
static IV ilazy(E e){
	auto it=ivMemo.find(e); if(it!=ivMemo.end()) return it->second; if(e->w>100) throw IBail();
	IV r; unsigned w=e->w;
	switch(e->op){
	case O_CONST:{ s128 c=w==1?(s128)e->c:sconst(e); r={inum(c),c,c}; break; }
	case O_VAR:{ char b[32]; snprintf(b,32,"i%u",e->aux); r={Z3_mk_const(C,Z3_mk_string_symbol(C,b),intS),0,(s128)maskOf(w)}; break; }
	case O_ADD:{ IV a=ilazy(e->k[0]),b=ilazy(e->k[1]); r={iadd(a.a,b.a),a.lo+b.lo,a.hi+b.hi}; break; }
	case O_SUB:{ IV a=ilazy(e->k[0]),b=ilazy(e->k[1]); Z3_ast k[2]={a.a,b.a}; r={Z3_mk_sub(C,2,k),a.lo-b.hi,a.hi-b.lo}; break; }
	case O_MUL:{ if(!e->k[1]->isC()) throw IBail(); IV a=ilazy(e->k[0]); s128 c=sconst(e->k[1]); s128 L=(s128)1<<40; if(c>L||c<-L||a.lo<-((s128)1<<80)||a.hi>(s128)1<<80) throw IBail(); r={imul(a.a,c),c>=0?a.lo*c:a.hi*c,c>=0?a.hi*c:a.lo*c}; break; }
	case O_UDIV: case O_UREM:{ if(!e->k[1]->isC()||!e->k[1]->c) throw IBail(); IV a=iuns(e->k[0]); s128 c=(s128)e->k[1]->c; if(e->op==O_UDIV) r={Z3_mk_div(C,a.a,inum(c)),a.lo/c,a.hi/c}; else r={Z3_mk_mod(C,a.a,inum(c)),0,std::min(a.hi,c-1)}; break; }
	case O_SDIV: case O_SREM:{ if(!e->k[1]->isC()) throw IBail(); s128 c=sconst(e->k[1]); if(c<=0) throw IBail(); IV a=isgn(e->k[0]); Z3_ast neg=Z3_mk_lt(C,a.a,inum(0)), m=Z3_mk_unary_minus(C,a.a);
		if(e->op==O_SDIV){ Z3_ast p=Z3_mk_div(C,a.a,inum(c)); if(a.lo>=0) r={p,a.lo/c,a.hi/c}; else r={Z3_mk_ite(C,neg,Z3_mk_unary_minus(C,Z3_mk_div(C,m,inum(c))),p),a.lo/c,a.hi/c}; }
		else { Z3_ast p=Z3_mk_mod(C,a.a,inum(c)); if(a.lo>=0) r={p,0,c-1}; else r={Z3_mk_ite(C,neg,Z3_mk_unary_minus(C,Z3_mk_mod(C,m,inum(c))),p),1-c,c-1}; } break; }
	case O_XOR: if(w>1&&e->k[1]->isC()&&e->k[1]->c==maskOf(w)){ IV a=ilazy(e->k[0]); Z3_ast k[2]={inum(-1),a.a}; r={Z3_mk_sub(C,2,k),-1-a.hi,-1-a.lo}; break; } if(w==1) goto viaB; throw IBail();
	case O_CONCAT:{ IV a=iuns(e->k[0]),b=iuns(e->k[1]); s128 m=(s128)1<<e->k[1]->w; if(e->k[0]->isC()&&!e->k[0]->c) r=b; else if(e->k[1]->isC()&&!e->k[1]->c){ IV l=ilazy(e->k[0]); if(l.lo<-((s128)1<<100)/m||l.hi>((s128)1<<100)/m) l=a; r={imul(l.a,m),l.lo*m,l.hi*m}; } else r={iadd(imul(a.a,m),b.a),a.lo*m+b.lo,a.hi*m+b.hi}; break; }
	case O_EXTRACT: if(e->aux==0){ r=ilazy(e->k[0]); break; } else { if(e->aux+w==e->k[0]->w&&w==1){ IV a=isgn(e->k[0]); r={Z3_mk_ite(C,Z3_mk_lt(C,a.a,inum(0)),inum(1),inum(0)),0,1}; break; } IV a=iuns(e->k[0]); s128 m=(s128)1<<e->aux; r={Z3_mk_div(C,a.a,inum(m)),a.lo/m,a.hi/m}; break; }
	case O_SEXT: r=isgn(e->k[0]); break;
	case O_ITE: if(w==1) goto viaB; { IV a=ilazy(e->k[1]),b=ilazy(e->k[2]); r={Z3_mk_ite(C,ibool(e->k[0]),a.a,b.a),std::min(a.lo,b.lo),std::max(a.hi,b.hi)}; break; }
	case O_EQ: case O_ULT: case O_SLT: viaB: r={Z3_mk_ite(C,ibool(e),inum(1),inum(0)),0,1}; break;
	default: if(w==1&&(e->op==O_AND||e->op==O_OR)) goto viaB; throw IBail(); }
	s128 L=(s128)1<<110; if(r.lo<-L||r.hi>L) throw IBail();
	keep(r.a); return ivMemo[e]=r; }
static Z3_ast ibool(E e){
	auto it=ibMemo.find(e); if(it!=ibMemo.end()) return it->second; Z3_ast r;
	switch(e->op){
	case O_CONST: r=e->c?Z3_mk_true(C):Z3_mk_false(C); break;
	case O_EQ: if(e->k[0]->w==1) r=Z3_mk_iff(C,ibool(e->k[0]),ibool(e->k[1])); else { IV a=ilazy(e->k[0]),b=ilazy(e->k[1]); s128 M=(s128)1<<e->k[0]->w; if(a.hi-b.lo<M&&b.hi-a.lo<M) r=Z3_mk_eq(C,a.a,b.a);
		else { IV sa=isgn(e->k[0]),sb=isgn(e->k[1]); bool s=(sa.a==a.a)+(sb.a==b.a)>(iuns(e->k[0]).a==a.a)+(iuns(e->k[1]).a==b.a); r=s?Z3_mk_eq(C,sa.a,sb.a):Z3_mk_eq(C,iuns(e->k[0]).a,iuns(e->k[1]).a); } } break;
	case O_ULT: r=Z3_mk_lt(C,iuns(e->k[0]).a,iuns(e->k[1]).a); break;
	case O_SLT: r=Z3_mk_lt(C,isgn(e->k[0]).a,isgn(e->k[1]).a); break;
	case O_AND:{ Z3_ast a[2]={ibool(e->k[0]),ibool(e->k[1])}; r=Z3_mk_and(C,2,a); break; }
	case O_OR:{ Z3_ast a[2]={ibool(e->k[0]),ibool(e->k[1])}; r=Z3_mk_or(C,2,a); break; }
	case O_XOR: r=Z3_mk_xor(C,ibool(e->k[0]),ibool(e->k[1])); break;
	case O_ITE: r=Z3_mk_ite(C,ibool(e->k[0]),ibool(e->k[1]),ibool(e->k[2])); break;
	case O_VAR: case O_EXTRACT: r=Z3_mk_eq(C,iuns(e).a,inum(1)); break;
	default: throw IBail(); }
	keep(r); return ibMemo[e]=r; }
static std::unordered_map<E,bool> dvMemo;
static bool usesDiv(E e){ if(e->isC()||e->op==O_VAR) return false; if((e->op==O_UDIV||e->op==O_UREM||e->op==O_SDIV||e->op==O_SREM||e->op==O_MUL)&&e->w>=12) return true; auto it=dvMemo.find(e); if(it!=dvMemo.end()) return it->second; bool r=false; for(unsigned i=0;i<e->nk&&!r;i++) r=usesDiv(e->kid(i)); dvMemo[e]=r; return r; }
static int solveInt(const std::vector<E>&cs,const VarSet&vs,unsigned to,std::shared_ptr<Model>&mm){
	if(!intS){ intS=Z3_mk_int_sort(C); Z3_inc_ref(C,Z3_sort_to_ast(C,intS)); }
	std::vector<Z3_ast> as; try{ for(E c:cs) as.push_back(ibool(c)); for(unsigned i=0;i<vs.w.size()*64;i++) if(vs.has(i)){ IV v=ilazy(mkVar(i,varWidths[i])); as.push_back(Z3_mk_ge(C,v.a,inum(0))); as.push_back(Z3_mk_le(C,v.a,inum(v.hi))); } }catch(IBail&){ return -1; }
	Z3_solver s=Z3_mk_solver_for_logic(C,Z3_mk_string_symbol(C,"QF_LIA")); Z3_solver_inc_ref(C,s);
	Z3_params p=Z3_mk_params(C); Z3_params_inc_ref(C,p); Z3_params_set_uint(C,p,Z3_mk_string_symbol(C,"timeout"),to); Z3_solver_set_params(C,s,p); Z3_params_dec_ref(C,p);
	for(auto a:as) Z3_solver_assert(C,s,a);
	Z3_lbool r=Z3_solver_check(C,s); int res=r==Z3_L_FALSE?0:-1;
	if(r==Z3_L_TRUE){ res=1; mm=std::make_shared<Model>(); Z3_model m=Z3_solver_get_model(C,s); Z3_model_inc_ref(C,m);
		for(unsigned i=0;i<vs.w.size()*64;i++) if(vs.has(i)){ Z3_ast v=nullptr; uint64_t val=0; if(Z3_model_eval(C,m,ilazy(mkVar(i,varWidths[i])).a,true,&v)&&v){ Z3_inc_ref(C,v); if(Z3_get_ast_kind(C,v)==Z3_NUMERAL_AST) Z3_get_numeral_uint64(C,v,&val); Z3_dec_ref(C,v); } if(mm->v.size()<=i) mm->v.resize(i+1); mm->v[i]=val; }
		Z3_model_dec_ref(C,m); ModelP mp=mm; for(E c:cs) if(!evalExpr(c,mp)){ fprintf(stderr,"symx: integer model does not satisfy constraint under evaluator: %s\n",exprStr(c,8).c_str()); res=-1; break; } }
	Z3_solver_dec_ref(C,s); return res; }
static bool usesFp(E e,std::unordered_map<E,bool>&m){ if(e->op>=O_FADD&&e->op<O_AGG) return true; if(e->isC()||e->op==O_VAR) return false; auto it=m.find(e); if(it!=m.end()) return it->second; bool r=false; for(unsigned i=0;i<e->nk&&!r;i++) r=usesFp(e->kid(i),m); m[e]=r; return r; }
static std::unordered_map<E,bool> fpMemo;
struct QRes{ int r; std::shared_ptr<Model> m; };
struct VH{ size_t operator()(const std::vector<uint32_t>&v) const{ size_t h=v.size(); for(auto x:v) h=(h^x)*0x9E3779B97F4A7C15ull, h^=h>>29; return h; } };
static std::unordered_map<std::vector<uint32_t>,QRes,VH> cache;
static void collectVars(const std::vector<E>&cs,VarSet&s){ for(E c:cs) s.add(*c->vars); }
int solverCheck(const std::vector<E>& cs0, std::shared_ptr<Model>* out){
  std::vector<E> cs=cs0; std::sort(cs.begin(),cs.end(),[](E a,E b){return a->id<b->id;}); cs.erase(std::unique(cs.begin(),cs.end()),cs.end());
  std::vector<uint32_t> key; for(E c:cs) key.push_back(c->id);
  auto it=cache.find(key); if(it!=cache.end()){ gSS.cacheHits++; if(it->second.r==1&&out) *out=it->second.m; return it->second.r; }
  auto t0=std::chrono::steady_clock::now();
  gSS.queries++;
  bool fp=false; for(E c:cs) if(usesFp(c,fpMemo)) fp=true;
  int res=-1; std::shared_ptr<Model> mm;
  VarSet vs; collectVars(cs,vs);
  bool dv=false; if(!fp) for(E c:cs) if(usesDiv(c)) dv=true;
  if(dv) res=solveInt(cs,vs,std::min(gQueryTimeoutMs,20000u),mm);
  for(int attempt=0; attempt<2&&res<0; attempt++){
    Z3_solver s;
    unsigned to;
    if(attempt==0&&!fp){ s=Z3_mk_simple_solver(C); to=std::min(gQueryTimeoutMs,(unsigned)3000); }
    else if(attempt==0&&fp) { s=Z3_mk_solver_for_logic(C,Z3_mk_string_symbol(C,"QF_FPBV")); to=gQueryTimeoutMs; }
    else { s=Z3_mk_solver_for_logic(C,Z3_mk_string_symbol(C,fp?"QF_FPBV":"QF_BV")); to=gQueryTimeoutMs; }
    Z3_solver_inc_ref(C,s);
    Z3_params p=Z3_mk_params(C); Z3_params_inc_ref(C,p); Z3_params_set_uint(C,p,Z3_mk_string_symbol(C,"timeout"),to);
    Z3_solver_set_params(C,s,p); Z3_params_dec_ref(C,p);
    for(E c:cs) Z3_solver_assert(C,s,zbool(c));
    Z3_lbool r=Z3_solver_check(C,s);
    if(r==Z3_L_FALSE) res=0;
    else if(r==Z3_L_TRUE){ res=1; mm=std::make_shared<Model>();
      Z3_model m=Z3_solver_get_model(C,s); Z3_model_inc_ref(C,m);
      for(unsigned i=0;i<vs.w.size()*64;i++) if(vs.has(i)){ Z3_ast v=nullptr; Z3_ast x=zbv(mkVar(i,varWidths[i])); uint64_t val=0;
        if(Z3_model_eval(C,m,x,true,&v)&&v){ Z3_inc_ref(C,v); if(Z3_get_ast_kind(C,v)==Z3_NUMERAL_AST) Z3_get_numeral_uint64(C,v,&val); Z3_dec_ref(C,v);} 
        if(mm->v.size()<=i) mm->v.resize(i+1); mm->v[i]=val; }
      Z3_model_dec_ref(C,m);
      // self check of the model with our evaluator
      ModelP mp=mm; for(E c:cs) if(!evalExpr(c,mp)){ fprintf(stderr,"symx: model does not satisfy constraint under evaluator: %s\n",exprStr(c,8).c_str()); res=-1; break; }
      if(res<0&&attempt==1){}
    }
    Z3_solver_dec_ref(C,s);
  }
  if(res<0&&dv) res=solveInt(cs,vs,gQueryTimeoutMs,mm);
  double dt=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); gSS.time+=dt; if(dt>gSS.maxTime) gSS.maxTime=dt;
  if(getenv("SYMX_SLOWQ")&&dt>atof(getenv("SYMX_SLOWQ"))){ fprintf(stderr,"slow query %.2fs res=%d n=%zu\n",dt,res,cs.size()); for(E c:cs) fprintf(stderr,"   %s\n",exprStr(c,7).substr(0,600).c_str()); }
  if(res==1) gSS.sat++; else if(res==0) gSS.unsat++; else gSS.unknown++;
  if(res>=0) cache[key]={res,mm};
  if(res==1&&out) *out=mm;
  return res;
}
