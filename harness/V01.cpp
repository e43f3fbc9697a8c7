/*SPEC
BOUNDS='vectors of up to n elements (72; 24 for aliases), every value of every element byte; start index and width 0..64 arbitrary within; values: all 2^64'
OUTSIDE='vectors longer than 72 elements; fields wider than 64 bits'
N=72
case('roundtrip.msb',n=N,rev=0,reach=['w0','w64','mid'],time=300)
case('roundtrip.rev',n=N,rev=1,reach=['w64','mid'],time=300)
case('cross',n=N,reach=['done'],time=300)
case('overrun',n=40,reach=['stopped'],time=200)
case('alias',n=24,reach=['done'],time=200)
*/
#include "symx.h"
#include "BitVector.h"
static uint64_t maskw(unsigned w){ return w>=64?~0ull:((1ull<<w)-1); }
enum { MAXN=96 };
static void roundtrip(){ bool reversed=sym_param("rev",0);
	unsigned n=sym_param("n",72); char before[MAXN];
	BitVector v((size_t)n); sym_bytes(v.begin(),n,"content"); for(unsigned i=0;i<n;i++) before[i]=v.begin()[i];
	unsigned w=sym_concretize(sym_range(0,64,"width")); size_t st=sym_concretize(sym_range(0,n-w,"start"));
	uint64_t val=sym<uint64_t>("value");
	size_t wi=st; if(reversed) v.writeFieldReversed(wi,val,w); else v.writeField(wi,val,w);
	SYM_ASSERT(wi==st+w,"write index does not advance by the field width");
	size_t ri=st; uint64_t got;
	if(reversed){ if(w==0) sym_end(); got=v.readFieldReversed(ri,w); } else got=v.readField(ri,w);
	SYM_ASSERT(ri==st+w,"read index does not advance by the field width");
	SYM_ASSERT(got==(val&maskw(w)),"value read back differs from value written modulo 2^width");
	bool same=true; for(unsigned i=0;i<n;i++) if(i<st||i>=st+w) same&=v.begin()[i]==before[i];
	SYM_ASSERT(same,"a bit outside the field changed");
	// peek/fill agree with read/write
	uint64_t pk=reversed?v.peekFieldReversed(st,w):v.peekField(st,w); SYM_ASSERT(pk==got,"peek and read disagree");
	char after[MAXN]; for(unsigned i=0;i<n;i++) after[i]=v.begin()[i];
	for(unsigned i=0;i<n;i++) v.begin()[i]=before[i];
	if(reversed) v.fillFieldReversed(st,val,w); else v.fillField(st,val,w);
	same=true; for(unsigned i=0;i<n;i++) same&=v.begin()[i]==after[i]; SYM_ASSERT(same,"fill and write disagree");
	if(w==0) sym_reach("w0"); if(w==64) sym_reach("w64"); if(w>0&&w<64&&st>0) sym_reach("mid");
}

// reading in the other order yields the bit-reversed value, whatever is stored
static void cross(){
	unsigned n=sym_param("n",72); BitVector v((size_t)n); sym_bytes(v.begin(),n,"content");
	unsigned w=sym_concretize(sym_range(1,64,"width")); size_t st=sym_concretize(sym_range(0,n-w,"start"));
	uint64_t a=v.peekField(st,w), b=v.peekFieldReversed(st,w), want=0,wantr=0;
	for(unsigned i=0;i<w;i++){ uint64_t bit=v.begin()[st+i]&1; want|=bit<<(w-1-i); wantr|=bit<<i; }
	SYM_ASSERT(a==want,"MSB-first read does not give the stored bits");
	SYM_ASSERT(b==wantr,"reversed read does not give the bit-reversed value");
	sym_reach("done");
}
// a write or reversed read past the end stops before touching memory
static void overrun(){
	unsigned n=sym_param("n",40); char before[MAXN]; int op=sym_choice(5,"op");
	BitVector v((size_t)n); sym_bytes(v.begin(),n,"content"); for(unsigned i=0;i<n;i++) before[i]=v.begin()[i];
	unsigned w=sym_concretize(sym_range(1,64,"width")); size_t st=sym_concretize(sym_range(0,n+3,"start")); SYM_ASSUME(st+w>n);
	uint64_t val=sym<uint64_t>("value"); size_t x=st;
	int r=sym_try_f([&]{ switch(op){ case 0: v.fillField(st,val,w); break; case 1: v.fillFieldReversed(st,val,w); break; case 2: v.writeField(x,val,w); break; case 3: v.writeFieldReversed(x,val,w); break; case 4: v.peekFieldReversed(st,w); break; } });
	SYM_ASSERT(r==1,"an access running past the end was not stopped");
	bool same=true; for(unsigned i=0;i<n;i++) same&=v.begin()[i]==before[i];
	SYM_ASSERT(same,"a stopped access changed the vector"); sym_reach("stopped");
}
// fields written through a segment stay inside the segment and are seen by the parent
static void alias(){
	unsigned n=sym_param("n",24); char before[MAXN];
	BitVector v((size_t)n); sym_bytes(v.begin(),n,"content"); for(unsigned i=0;i<n;i++) before[i]=v.begin()[i];
	size_t so=sym_concretize(sym_range(0,n,"segstart")), sl=sym_concretize(sym_range(0,n-so,"segspan")); BitVector s=v.segment(so,sl);
	unsigned w=sym_concretize(sym_range(0,sl,"width")); size_t st=sym_concretize(sym_range(0,sl-w,"start")); uint64_t val=sym<uint64_t>("value");
	size_t wi=st; s.writeField(wi,val,w);
	SYM_ASSERT(v.peekField(so+st,w)==(val&maskw(w)),"field written through a segment is not seen in the parent");
	bool same=true; for(unsigned i=0;i<n;i++) if(i<so+st||i>=so+st+w) same&=v.begin()[i]==before[i];
	SYM_ASSERT(same,"a bit outside the field changed");
	wi=st; s.writeFieldReversed(wi,val,w); SYM_ASSERT(w==0||s.peekFieldReversed(st,w)==(val&maskw(w)),"reversed field round trip through a segment");
	sym_reach("done");
}
extern "C" void harness_main(void){ H(roundtrip) H(cross) H(overrun) H(alias) sym_fail("unknown case"); }
