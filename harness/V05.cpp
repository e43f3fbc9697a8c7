/*SPEC
BOUNDS='generator lengths 1..40 bits (each value), every polynomial coefficient, data of up to dl bits (8..24) of every content; every previous generator state'
OUTSIDE='data longer than the stated number of bits; generators of 41..63 bits'
LENS=[1,2,3,4,5,6,7,8,10,12,14,16,20,24,28,32,36,40]
case('division',lo=1,hi=8,dl=10,reach=['done'],time=250)
case('division.b',f='division',lo=9,hi=16,dl=8,reach=['done'],time=250)
case('division.c',f='division',lo=17,hi=40,dl=6,reach=['done'],time=250)
case('codeword',lo=1,hi=12,dl=8,reach=['plain','inverted'],time=250)
case('codeword.b',f='codeword',lo=13,hi=40,dl=5,reach=['plain','inverted'],time=250)
case('single',lo=2,hi=10,dl=8,reach=['done'],time=250)
case('single.b',f='single',lo=11,hi=40,dl=4,reach=['done'],time=250)
case('burst',lo=2,hi=8,dl=6,reach=['done'],time=250)
case('known',lo=1,hi=1,dl=14 if THOROUGH else 12,reach=['done'],time=250)
case('dirty',lo=1,hi=24,dl=6,reach=['done'],time=250)
*/
#include "symx.h"
#include "BitVector.h"
static uint64_t M(unsigned L){ return (1ull<<L)-1; }
static unsigned L,D; static uint64_t coef;
static void setup(bool constTerm){ L=sym_concretize(sym_range(sym_param("lo",1),sym_param("hi",40),"len")); D=sym_concretize(sym_range(0,sym_param("dl",8),"datalen")); coef=sym<uint64_t>("coef"); SYM_ASSUME(coef<=(M(L)<<1|1)); if(constTerm) SYM_ASSUME(coef&1); }
// the generator as the caller configures it, in an arbitrary earlier state
static void dirtyState(Generator&g){ uint64_t st=sym<uint64_t>("prevstate"); for(unsigned i=0;i<2;i++) g.syndromeShift((st>>i)&1); for(unsigned i=2;i<4;i++) g.encoderShift((st>>i)&1); }
// remainder of data*x^L by x^L+coef (polynomial division, one bit at a time)
static uint64_t remainder(const char*d,unsigned n,bool shift){ uint64_t r=0; for(unsigned i=0;i<n;i++){ uint64_t top; if(shift){ top=((r>>(L-1))^(uint64_t)d[i])&1; r=(r<<1)&M(L); } else { top=(r>>(L-1))&1; r=((r<<1)|(uint64_t)(d[i]&1))&M(L); } r^=(-top)&(coef&M(L)); } return r; }
static void division(){
	setup(false); BitVector v((size_t)D); for(unsigned i=0;i<D;i++) v[i]=sym_bits(1,"bit"); Generator g(coef,L); dirtyState(g); 
	SYM_ASSERT(v.parity(g)==remainder(v.begin(),D,true),"parity is not the remainder of the data shifted by the parity length");
	SYM_ASSERT(v.syndrome(g)==remainder(v.begin(),D,false),"syndrome is not the remainder of the received word");
	SYM_ASSERT(v.parity(g)==remainder(v.begin(),D,true),"parity depends on what the generator computed before"); SYM_ASSERT(g.size()==L,"generator length"); sym_reach("done");
}
static void codeword(){
	setup(false); bool inv=sym_choice(2,"invert"); Parity p(coef,L,D+L); BitVector cw((size_t)(D+L)); cw.fill(0); for(unsigned i=0;i<D;i++) cw[i]=sym_bits(1,"bit"); 
	BitVector data=cw.head(D), par=cw.segment(D,L); dirtyState(p);
	if(inv) p.writeParityWord(data,par); else p.writeParityWord(data,par,false);
	uint64_t s=p.syndrome(cw);
	if(!inv){ SYM_ASSERT(s==0,"codeword with plain parity does not have syndrome zero"); sym_reach("plain"); }
	else { SYM_ASSERT(s==M(L),"codeword with inverted parity does not have the all-ones remainder"); sym_reach("inverted"); }
}
static void single(){
	setup(true); bool inv=sym_choice(2,"invert"); Parity p(coef,L,D+L); BitVector cw((size_t)(D+L)); cw.fill(0); for(unsigned i=0;i<D;i++) cw[i]=sym_bits(1,"bit");
	BitVector data=cw.head(D), par=cw.segment(D,L); p.writeParityWord(data,par,inv); uint64_t s0=p.syndrome(cw); unsigned at=sym_concretize(sym_range(0,D+L-1,"at")); cw[at]=cw[at]^1;
	SYM_ASSERT(p.syndrome(cw)!=s0,"a single-bit error does not change the syndrome"); sym_reach("done");
}
static void burst(){
	setup(true); Parity p(coef,L,D+L); BitVector cw((size_t)(D+L)); cw.fill(0); for(unsigned i=0;i<D;i++) cw[i]=sym_bits(1,"bit");
	BitVector data=cw.head(D), par=cw.segment(D,L); p.writeParityWord(data,par,false); unsigned at=sym_concretize(sym_range(0,D,"at")); uint64_t e=sym_bits(L,"error"); SYM_ASSUME(e!=0); for(unsigned i=0;i<L;i++) cw[at+i]=cw[at+i]^((e>>i)&1);
	SYM_ASSERT(p.syndrome(cw)!=0,"a burst no longer than the parity word does not change the syndrome"); sym_reach("done");
}
// the polynomials used in GSM: fixed coefficients, longer data
static void known(){
	static const struct { uint64_t c; unsigned l; } K[]={ {0x10004820009ull,40},{0x06f,6},{0x575,10},{0x1021,16},{0xbull,3},{0x1d,8},{0x5d,7} }; int k=sym_choice(7,"poly"); L=K[k].l; coef=K[k].c; D=sym_param("dl",24);
	bool inv=sym_choice(2,"invert"); Parity p(coef,L,D+L); BitVector cw((size_t)(D+L)); cw.fill(0); for(unsigned i=0;i<D;i++) cw[i]=sym_bits(1,"bit");
	BitVector data=cw.head(D), par=cw.segment(D,L); p.writeParityWord(data,par,inv); SYM_ASSERT(p.syndrome(cw)==(inv?M(L):0),"codeword does not check"); 
	bool ok=true; uint64_t r=remainder(cw.begin(),D,true); for(unsigned i=0;i<L;i++) ok&=cw[D+i]==(char)(((inv?~r:r)>>(L-1-i))&1); SYM_ASSERT(ok,"parity bits stored in the codeword"); sym_reach("done");
}
// only the low bit of each element counts
static void dirty(){
	setup(false); BitVector v((size_t)D),c((size_t)D); sym_bytes(v.begin(),D,"content"); for(unsigned i=0;i<D;i++) c[i]=v.begin()[i]&1; Generator g(coef,L);
	SYM_ASSERT(v.parity(g)==c.parity(g),"parity depends on more than the low bit of an element"); SYM_ASSERT(v.syndrome(g)==c.syndrome(g),"syndrome depends on more than the low bit of an element"); sym_reach("done");
}
extern "C" void harness_main(void){ H(division) H(codeword) H(single) H(burst) H(known) H(dirty) sym_fail("unknown case"); }
