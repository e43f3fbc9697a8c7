/*SPEC
BOUNDS='vectors of every length 0..n (n=12), every strictly increasing list of positions in range, every content'
OUTSIDE='longer vectors'
case('punct',n=10,reach=['first','last','none','all'],time=300)
case('unpunct',n=10,reach=['first','last','none','all'],time=300)
case('both',n=7,reach=['done'],time=200)
case('sizes',n=5,reach=['stopped'],time=100)
case('badlist',n=5,reach=['stopped'],time=100)
*/
#include "symx.h"
#include "BitVector.h"
static bool setb(unsigned m,unsigned i){ return (m>>i)&1; }
static unsigned list(unsigned n,unsigned*&p,unsigned&mask){ mask=sym_concretize(sym_range(0,(1u<<n)-1,"mask")); unsigned k=0; for(unsigned i=0;i<n;i++) k+=setb(mask,i); p=new unsigned[k?k:1]; unsigned j=0; for(unsigned i=0;i<n;i++) if(setb(mask,i)) p[j++]=i; return k; }
static void reach(unsigned n,unsigned mask){ if(mask==0) sym_reach("none"); if(n&&mask==(1u<<n)-1) sym_reach("all"); if(mask&1) sym_reach("first"); if(n&&setb(mask,n-1)) sym_reach("last"); }
static void punct(){
	unsigned n=sym_concretize(sym_range(0,sym_param("n",12),"n")); unsigned*p,mask; unsigned k=list(n,p,mask);
	BitVector v((size_t)n),d((size_t)(n-k)); sym_bytes(v.begin(),n,"content"); d.fill(77); v.copyPunctured(d,p,k); bool ok=true; unsigned j=0;
	for(unsigned i=0;i<n;i++) if(!setb(mask,i)) ok&=d.begin()[j++]==v.begin()[i]; SYM_ASSERT(j==n-k&&ok,"punctured vector is not the unlisted symbols in order"); delete[] p; reach(n,mask);
}
static void unpunct(){
	unsigned n=sym_concretize(sym_range(0,sym_param("n",12),"n")); unsigned*p,mask; unsigned k=list(n,p,mask);
	SoftVector s((size_t)(n-k)),d((size_t)n); uint32_t raw[16]; for(unsigned i=0;i<n-k;i++){ raw[i]=sym<uint32_t>("soft"); __builtin_memcpy(&s.begin()[i],&raw[i],4); } d.fill(9.0f);
	s.copyUnPunctured(d,p,k); bool ok=true; unsigned j=0; for(unsigned i=0;i<n;i++){ uint32_t x; __builtin_memcpy(&x,&d.begin()[i],4); if(setb(mask,i)) ok&=x==0x3f000000; else ok&=x==raw[j++]; }
	SYM_ASSERT(ok,"unpunctured vector is not the symbols at their positions with 0.5 at the listed ones"); delete[] p; reach(n,mask);
}
static void both(){
	unsigned n=sym_concretize(sym_range(0,sym_param("n",8),"n")); unsigned*p,mask; unsigned k=list(n,p,mask);
	BitVector v((size_t)n),d((size_t)(n-k)); for(unsigned i=0;i<n;i++) v[i]=sym_bits(1,"bit"); v.copyPunctured(d,p,k); SoftVector s(d),u((size_t)n); s.copyUnPunctured(u,p,k); bool ok=true;
	for(unsigned i=0;i<n;i++) if(setb(mask,i)) ok&=u.softbit(i)==0.5f; else ok&=u.bit(i)==v.bit(i); SYM_ASSERT(ok,"puncture then unpuncture does not restore the kept bits"); delete[] p; sym_reach("done");
}
static void sizes(){	// destination of the wrong size is refused before anything is written
	unsigned n=sym_concretize(sym_range(0,sym_param("n",6),"n")); unsigned*p,mask; unsigned k=list(n,p,mask); unsigned m=sym_concretize(sym_range(0,n+2,"m")); 
	int which=sym_choice(2,"which"); bool ok=true;
	if(which==0){ SYM_ASSUME(m!=n-k); BitVector v((size_t)n),d((size_t)m); v.zero(); d.fill(5); int r=sym_try_f([&]{ v.copyPunctured(d,p,k); }); SYM_ASSERT(r==1,"wrong destination size accepted"); for(unsigned i=0;i<m;i++) ok&=d.begin()[i]==5; }
	else { SYM_ASSUME(m!=n); SoftVector v((size_t)(n-k)),d((size_t)m); v.fill(0); d.fill(5); int r=sym_try_f([&]{ v.copyUnPunctured(d,p,k); }); SYM_ASSERT(r==1,"wrong destination size accepted"); for(unsigned i=0;i<m;i++) ok&=d.begin()[i]==5.0f; }
	SYM_ASSERT(ok,"refused call changed the destination"); delete[] p; sym_reach("stopped");
}
static void badlist(){	// a list that is not strictly increasing or leaves the vector is stopped, and never leads outside the vectors
	unsigned n=sym_concretize(sym_range(1,sym_param("n",5),"n")), k=sym_concretize(sym_range(1,n<3?n:3,"k")); unsigned*p=new unsigned[k]; bool good=true; for(unsigned i=0;i<k;i++){ p[i]=sym_concretize(sym_range(0,n+1,"pos")); if(p[i]>=n||(i&&p[i]<=p[i-1])) good=false; } SYM_ASSUME(!good);
	int r; if(sym_choice(2,"which")==0){ BitVector v((size_t)n),d((size_t)(n-k)); v.zero(); d.zero(); r=sym_try_f([&]{ v.copyPunctured(d,p,k); }); }
	else { SoftVector v((size_t)(n-k)),d((size_t)n); v.fill(0); d.fill(0); r=sym_try_f([&]{ v.copyUnPunctured(d,p,k); }); }
	SYM_ASSERT(r==1,"a bad puncture list was not stopped"); delete[] p; sym_reach("stopped");
}
extern "C" void harness_main(void){ H(punct) H(unpunct) H(both) H(sizes) H(badlist) sym_fail("unknown case"); }
