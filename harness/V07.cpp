/*SPEC
BOUNDS='slicing: vectors of 0..6 symbols, every float bit pattern incl. NaN and infinities; energy: 1..3 symbols, SNR: one arbitrary float in [0,1] alone or next to one hard or unknown symbol, and 3 symbols on the grid k/8; hard vectors of 0..9, constant vectors of 1..24'
OUTSIDE='energy and SNR of longer vectors with arbitrary symbols (float rounding accumulates per symbol)'
case('slice',n=6,reach=['done'],time=200)
case('hardslice',n=9,reach=['done'],time=200)
case('unknownv',n=20,reach=['done'],time=200)
case('energy1',f='energy',n=1,reach=['done'],time=300)
case('energy2',f='energy',n=2,reach=['done'],time=500,qt=240000)
case('lowest',n=3,reach=['done'],time=300)
case('snr1',f='snr',n=1,reach=['done'],time=300)
case('snrmix',n=2,reach=['done'],time=300,qt=200000)
case('energyrange',n=4,reach=['done'],time=300)
case('hard',n=9,reach=['done','empty'],time=200)
case('allsame',n=24,reach=['done'],time=200)
case('grid',n=3,reach=['done'],time=300)
case('printing',n=3,reach=['done'],time=200)
*/
#include "symx.h"
#include "BitVector.h"
#include <sstream>
static unsigned pick(unsigned lo=0){ return sym_concretize(sym_range(lo,sym_param("n",4),"n")); }
static float raw(SoftVector&s,unsigned i){ return s.begin()[i]; }
static void slice(){
	unsigned n=pick(); SoftVector s((size_t)n); for(unsigned i=0;i<n;i++) s[i]=sym_f32("soft"); BitVector b=s.sliced(); SYM_ASSERT(b.size()==n,"sliced length"); bool ok=true;
	for(unsigned i=0;i<n;i++){ int w=raw(s,i)>0.5f; ok&=(b.begin()[i]==w)&(s.bit(i)==w); } SYM_ASSERT(ok,"slicing must decide 1 exactly above 0.5"); sym_reach("done");
}
static void hardslice(){
	unsigned n=pick(); BitVector v((size_t)n); for(unsigned i=0;i<n;i++) v[i]=sym_bits(1,"bit"); SoftVector s(v); SYM_ASSERT(s.size()==n,"length"); bool ok=true; for(unsigned i=0;i<n;i++) ok&=raw(s,i)==(v[i]?1.0f:0.0f);
	SYM_ASSERT(ok,"hard bits become 0 and 1"); BitVector b=s.sliced(); for(unsigned i=0;i<n;i++) ok&=b[i]==v[i]; SYM_ASSERT(ok&&b.size()==n,"slicing a hard vector is not the identity"); sym_reach("done");
}
static void unknownv(){ unsigned n=pick(); SoftVector s((size_t)n); for(unsigned i=0;i<n;i++) s[i]=1; s.unknown(); bool ok=true; for(unsigned i=0;i<n;i++) ok&=raw(s,i)==0.5f; SYM_ASSERT(ok,"unknown must set every symbol to 0.5"); float low=7; float e=s.getEnergy(&low); SYM_ASSERT(e==0.0f&&(n==0||low==0.0f),"an entirely unknown vector must have energy 0"); sym_reach("done"); }
static float unit(){ float f=sym_f32("soft"); SYM_ASSUME((f>=0.0f)&(f<=1.0f)); return f; }
static float en(float f){ return (float)(2*(f<0.5?0.5-f:f-0.5)); }
static void energy(){
	unsigned n=sym_param("n",1); SoftVector s((size_t)n); float m=1; for(unsigned i=0;i<n;i++){ s[i]=unit(); } float low=9; float e=s.getEnergy(&low); bool some=false,all=true;
	for(unsigned i=0;i<n;i++){ float x=en(raw(s,i)); some|=x==low; all&=low<=x; }
	SYM_ASSERT((e>=0.0f)&(e<=1.0f),"energy outside [0,1]"); SYM_ASSERT((int)some&(int)all,"reported minimum is not the smallest per-symbol energy"); float e2=s.getEnergy(); SYM_ASSERT(e2==e,"energy depends on asking for the minimum"); sym_reach("done");
}
static void lowest(){
	unsigned n=sym_param("n",3); SoftVector s((size_t)n); for(unsigned i=0;i<n;i++) s[i]=unit(); float low=9; s.getEnergy(&low); bool some=false,all=true;
	for(unsigned i=0;i<n;i++){ float x=en(raw(s,i)); some|=x==low; all&=low<=x; } SYM_ASSERT((int)some&(int)all,"reported minimum is not the smallest per-symbol energy"); sym_reach("done");
}
// symbols are multiples of 1/256: the exact value of the energy is known
static void energyrange(){
	unsigned n=sym_param("n",4); SoftVector s((size_t)n); for(unsigned i=0;i<n;i++) s[i]=0; unsigned at=sym_concretize(sym_range(0,n-1,"at")); s[at]=unit(); float e=s.getEnergy(); SYM_ASSERT((e>=0.7499f)&(e<=1.0f),"energy of a vector with one soft symbol"); sym_reach("done");
}
static void snr(){
	unsigned n=sym_param("n",1); SoftVector s((size_t)n); for(unsigned i=0;i<n;i++) s[i]=unit(); float r=s.getSNR(); SYM_ASSERT((r>0.0f)&(r<=1000.0f),"SNR not positive, finite and bounded"); sym_reach("done");
}
static void snrmix(){ // one arbitrary symbol among hard and unknown ones
	unsigned n=sym_param("n",2); SoftVector s((size_t)n); unsigned at=sym_choice(n,"at"); for(unsigned i=0;i<n;i++) s[i]=i==at?unit():0.5f*sym_choice(3,"k"); float r=s.getSNR(); SYM_ASSERT((r>0.0f)&(r<=1000.0f),"SNR not positive, finite and bounded"); sym_reach("done"); }
static void hard(){
	unsigned n=pick(); BitVector v((size_t)n); for(unsigned i=0;i<n;i++) v[i]=sym_bits(1,"bit"); SoftVector s(v); if(n==0){ SYM_ASSERT(s.getSNR()==0.0f,"SNR of an empty vector"); SYM_ASSERT(s.getEnergy()==0.0f,"energy of an empty vector"); sym_reach("empty"); return; }
	SYM_ASSERT(s.getSNR()==999.0f,"SNR of a perfectly hard vector"); float low=5,e=s.getEnergy(&low); SYM_ASSERT((e>0.99999f)&(e<1.00001f),"energy of a perfectly hard vector"); SYM_ASSERT(low==1.0f,"lowest energy of a hard vector"); sym_reach("done");
}
static void allsame(){	// every symbol k/16: SNR and energy follow the definition
	unsigned n=pick(1), k=sym_concretize(sym_range(0,16,"k")); float x=k/16.0f; SoftVector s((size_t)n); for(unsigned i=0;i<n;i++) s[i]=x; float e=s.getEnergy(), want=2*(x<0.5f?0.5f-x:x-0.5f); SYM_ASSERT(e>want-0.0001f&&e<want+0.0001f,"energy of a constant vector");
	float d=x<0.5f?x:x-1, r=s.getSNR(); float w=d==0?999:0.25f/(d*d); SYM_ASSERT(r>w*0.999f&&r<w*1.001f,"SNR of a constant vector"); sym_reach("done");
}
// symbols on the grid k/8: sums are exact, so the results are those of the definition
static void grid(){
	unsigned n=sym_param("n",3); SoftVector s((size_t)n); int q=0; unsigned low8=8; for(unsigned i=0;i<n;i++){ unsigned k=sym_concretize(sym_range(0,8,"k")); s[i]=k/8.0f; unsigned d=k<4?4-k:k-4; q+=2*d; if(2*d<low8) low8=2*d; }
	float lo=3,e=s.getEnergy(&lo); float want=q/8.0f/n; SYM_ASSERT(e>want-0.00001f&&e<want+0.00001f&&e>=0&&e<=1.0f,"energy on the grid"); SYM_ASSERT(lo==low8/8.0f,"lowest energy on the grid");
	float noise=0; for(unsigned i=0;i<n;i++){ float b=raw(s,i),d=b<0.5f?b:1-b; noise+=d*d; } float w=noise==0?999:0.25f*n/noise, r=s.getSNR(); SYM_ASSERT(r>w*0.9999f&&r<w*1.0001f&&r<=999,"SNR on the grid"); sym_reach("done");
}
static void printing(){
	unsigned n=sym_param("n",3); SoftVector s((size_t)n); for(unsigned i=0;i<n;i++) s[i]=sym_f32("soft"); std::ostringstream os; os<<s; std::string t=os.str(); SYM_ASSERT(t.size()==n,"one character per symbol"); for(unsigned i=0;i<n;i++){ float f=raw(s,i); char w=f<0.25f?'0':f>0.75f?'1':'-'; SYM_ASSERT(t[i]==w,"printed symbol"); } sym_reach("done");
}
extern "C" void harness_main(void){ H(slice) H(hardslice) H(unknownv) H(energy) H(lowest) H(energyrange) H(snr) H(snrmix) H(hard) H(allsame) H(grid) H(printing) sym_fail("unknown case"); }
