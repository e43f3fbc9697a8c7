/*SPEC
BOUNDS='vectors of every length 0..n (n=26), every byte content where stated dirty; map tables of up to 4 entries, every permutation'
OUTSIDE='longer vectors; index tables naming positions outside the vector (callers contract)'
case('rev8',n=20,reach=['done','stopped'],time=100)
case('lsbmsb',n=26,reach=['done','short'],time=200)
case('mapping',n=4,reach=['done'],time=200)
case('select',n=5,m=3,reach=['done'],time=200)
case('inverting',n=12,reach=['done'],time=100)
case('summing',n=20,reach=['done'],time=200)
case('equality',n=6,reach=['eq','ne'],time=100)
case('aliaseq',n=6,reach=['done'],time=100)
*/
#include "symx.h"
#include "BitVector.h"
enum { MAXN=64 };
static unsigned pick(const char*nm="n"){ return sym_concretize(sym_range(0,sym_param("n",20),nm)); }
static void rev8(){
	unsigned n=pick(); BitVector v((size_t)n); sym_bytes(v.begin(),n,"content"); char b[MAXN]; for(unsigned i=0;i<n;i++) b[i]=v.begin()[i];
	int r=sym_try_f([&]{ v.reverse8(); }); if(n<8){ SYM_ASSERT(r==1,"reversing fewer than 8 bits is not stopped"); sym_reach("stopped"); }
	bool ok=true; for(unsigned i=0;i<n;i++) ok&=v.begin()[i]==(n>=8&&i<8?b[7-i]:b[i]); SYM_ASSERT(ok,"reverse8 is not the reversal of the first 8 elements"); sym_reach("done");
}
static void lsbmsb(){
	unsigned n=pick(); BitVector v((size_t)n); sym_bytes(v.begin(),n,"content"); char b[MAXN]; for(unsigned i=0;i<n;i++) b[i]=v.begin()[i];
	v.LSB8MSB(); bool ok=true; unsigned w=n/8*8; for(unsigned i=0;i<n;i++) ok&=v.begin()[i]==(i<w?b[i/8*8+7-i%8]:b[i]); SYM_ASSERT(ok,"LSB8MSB does not reverse each whole octet only");
	v.LSB8MSB(); for(unsigned i=0;i<n;i++) ok&=v.begin()[i]==b[i]; SYM_ASSERT(ok,"LSB8MSB is not its own inverse"); sym_reach(n<8?"short":"done");
}
static void mapping(){
	unsigned n=pick(); unsigned m[8]; for(unsigned i=0;i<n;i++){ m[i]=sym_concretize(sym_range(0,n-1,"perm")); for(unsigned j=0;j<i;j++) SYM_ASSUME(m[i]!=m[j]); }
	BitVector v((size_t)n),d((size_t)n),e((size_t)n); sym_bytes(v.begin(),n,"content"); v.map(m,n,d); bool ok=true;
	for(unsigned i=0;i<n;i++) ok&=d.begin()[i]==v.begin()[m[i]]; SYM_ASSERT(ok,"map: dest[i] != this[map[i]]");
	d.unmap(m,n,e); for(unsigned i=0;i<n;i++) ok&=e.begin()[i]==v.begin()[i]; SYM_ASSERT(ok,"unmap does not undo map");
	v.unmap(m,n,d); for(unsigned i=0;i<n;i++) ok&=d.begin()[m[i]]==v.begin()[i]; SYM_ASSERT(ok,"unmap: dest[map[i]] != this[i]"); sym_reach("done");
}
static void select(){	// a map that selects m of n positions (not a permutation) touches only m destination elements
	unsigned n=sym_param("n",5), k=sym_param("m",3); unsigned m[8]; for(unsigned i=0;i<k;i++) m[i]=sym_concretize(sym_range(0,n-1,"sel"));
	BitVector v((size_t)n),d((size_t)n+1); sym_bytes(v.begin(),n,"content"); d.fill(9); v.map(m,k,d); bool ok=true; for(unsigned i=0;i<=n;i++) ok&=d.begin()[i]==(i<k?v.begin()[m[i]]:9); SYM_ASSERT(ok,"map of a selection"); sym_reach("done");
}
static void inverting(){
	unsigned n=pick(); BitVector v((size_t)n); for(unsigned i=0;i<n;i++) v[i]=sym_bits(1,"bit"); char b[MAXN]; for(unsigned i=0;i<n;i++) b[i]=v[i];
	unsigned s=v.sum(); v.invert(); bool ok=true; for(unsigned i=0;i<n;i++) ok&=v.bit(i)==!b[i]; SYM_ASSERT(ok,"invert does not flip every bit"); SYM_ASSERT(v.sum()==n-s,"bit sum of the inverse");
	v.invert(); for(unsigned i=0;i<n;i++) ok&=v.begin()[i]==b[i]; SYM_ASSERT(ok,"invert is not its own inverse"); sym_reach("done");
}
static void summing(){
	unsigned n=pick(); BitVector v((size_t)n); sym_bytes(v.begin(),n,"content"); unsigned c=0; for(unsigned i=0;i<n;i++) c+=v.begin()[i]&1; SYM_ASSERT(v.sum()==c,"sum does not count the one bits");
	bool ok=true; for(unsigned i=0;i<n;i++) ok&=v.bit(i)==(v.begin()[i]&1); SYM_ASSERT(ok,"bit() is not the low bit"); sym_reach("done");
}
static void equality(){
	unsigned n=pick(),m=pick("m"); BitVector a((size_t)n),b((size_t)m); for(unsigned i=0;i<n;i++) a[i]=sym_bits(1,"a"); for(unsigned i=0;i<m;i++) b[i]=sym_bits(1,"b");
	bool want=n==m; if(want) for(unsigned i=0;i<n;i++) want&=a[i]==b[i]; bool eq=a==b; SYM_ASSERT(eq==want,"operator== differs from equal length and equal bits"); sym_reach(eq?"eq":"ne");
}
static void aliaseq(){
	unsigned n=pick(); BitVector a((size_t)n); for(unsigned i=0;i<n;i++) a[i]=sym_bits(1,"a"); BitVector c=a.alias(); SYM_ASSERT(c==a,"alias not equal"); BitVector d; d.clone(a); SYM_ASSERT(d==a&&a==d,"clone not equal");
	unsigned i=n?sym_concretize(sym_range(0,n-1,"i")):0; if(n){ d[i]=!d[i]; SYM_ASSERT(!(d==a),"vectors differing in one bit compare equal"); } sym_reach("done");
}
extern "C" void harness_main(void){ H(rev8) H(lsbmsb) H(mapping) H(select) H(inverting) H(summing) H(equality) H(aliaseq) sym_fail("unknown case"); }
