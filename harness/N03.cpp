/*SPEC
BOUNDS='every initial value compiled in (0, 1, 7, extreme), every operand, sequences of up to 3 operations; statistics of up to 3 samples, every value; bit sets: every sequence of up to 4 operations on arbitrary bits'
OUTSIDE='statistics of more samples; float statistics with NaN'
case('ints',k=2,reach=['done'],time=300)
case('inits',reach=['done'])
case('reals',reach=['done'],time=200)
case('fields',reach=['done'])
case('enums',reach=['done'])
case('statint',n=3,reach=['done'],time=300)
case('statuns',n=3,reach=['done'],time=300)
case('statfloat',n=3,reach=['done'],time=300)
case('stattext',reach=['done'],time=200)
case('bits',k=4,reach=['done'],time=300)
case('bitstart',reach=['done'])
*/
#include "symx.h"
#include "Utils.h"
#include "ScalarTypes.h"
#include <sstream>
template<class W,class B> static void one(int k){
	W w; SYM_ASSERT((B)w==0,"zero-initialised scalar does not start at 0"); B x=sym<B>("x"); B r=(w=x); SYM_ASSERT((B)w==x&&r==x,"assignment"); W c(x); SYM_ASSERT((B)c==x&&*(&c)==x,"construction from the base type"); B v=x;
	for(int i=0;i<k;i++){ B y=sym<B>("y"),got,want; switch(sym_choice(7,"op")){
		case 0: got=++w; want=++v; break; case 1: got=w++; want=v++; break; case 2: got=--w; want=--v; break; case 3: got=w--; want=v--; break; case 4: got=(w+=y); want=(v+=y); break; case 5: got=(w-=y); want=(v-=y); break; default: got=(w=y); want=(v=y); break; }
		SYM_ASSERT(got==want,"value of the expression differs from the base type's"); SYM_ASSERT((B)w==v&&*(&w)==v,"stored value differs from the base type's"); }
	W d(w); SYM_ASSERT((B)d==v,"copy"); d=w; SYM_ASSERT((B)d==v&&w==v,"copy assignment");
}
static void ints(){ int k=sym_param("k",2); switch(sym_choice(9,"type")){ case 0: one<Int_z,int>(k); break; case 1: one<Char_z,signed char>(k); break; case 2: one<Int16_z,int16_t>(k); break; case 3: one<Int32_z,int32_t>(k); break; case 4: one<UInt_z,unsigned>(k); break; case 5: one<UChar_z,unsigned char>(k); break; case 6: one<UInt16_z,uint16_t>(k); break; case 7: one<UInt32_z,uint32_t>(k); break; case 8: one<Size_t_z,size_t>(k); break; } sym_reach("done"); }
static void inits(){
	SYM_ASSERT(Int_i<7>()==7&&Int_i<-3>()==-3&&Char_i<-128>()==-128&&Int16_i<-32768>()==-32768&&Int32_i<2147483647>()==2147483647&&UInt_i<4294967295u>()==4294967295u&&UChar_i<255>()==255&&UInt16_i<65535>()==65535&&UInt32_i<1>()==1&&Size_t_i<18446744073709551615ull>()==18446744073709551615ull,"declared initial value");
	SYM_ASSERT((bool)Bool_z()==false&&(bool)Bool_i<true>()==true,"declared initial value of a boolean"); bool b=sym<bool>("b"); Bool_z z; bool r=(z=b); SYM_ASSERT((bool)z==b&&r==b&&*(&z)==b,"boolean assignment"); Bool_i<true> y(b); SYM_ASSERT((bool)y==b,"boolean construction");
	int x=sym<int>("x"); Int_i<7> i(x); SYM_ASSERT(i==x,"construction overrides the initial value"); sym_reach("done");
}
static void reals(){
	Float_z f; Double_z d; SYM_ASSERT((float)f==0&&(double)d==0,"zero-initialised real"); float x=sym_f32("x"); double y=sym_f64("y"); SYM_ASSUME((x==x)&(y==y)); float rf=(f=x); double rd=(d=y); SYM_ASSERT((float)f==x&&rf==x&&(double)d==y&&rd==y,"assignment of a real"); float z=sym_f32("z"); SYM_ASSUME((z>-1e30f)&(z<1e30f)&(x>-1e30f)&(x<1e30f)); float s=(f+=z); SYM_ASSERT(s==x+z&&(float)f==x+z,"+= of a real"); Float_z g(x); s=(g-=z); SYM_ASSERT(s==x-z&&(float)g==x-z,"-= of a real"); sym_reach("done");
}
static void fields(){
	Field<8,5> a; Field_z<16> b; Field_i<3,2> c; Field<> d; SYM_ASSERT(a.getWidth()==8&&b.getWidth()==16&&c.getWidth()==3&&d.getWidth()==32,"declared width"); SYM_ASSERT(Field_i<>().getWidth()==32&&Field_i<>().getValue()==0&&Field_i<9>().getValue()==0&&Field<7>().getValue()==0&&d.getValue()==0&&(Field_z<4,6>().getValue()==6),"default width and initial value of a field"); SYM_ASSERT(a.getValue()==5&&b.getValue()==0&&c.getValue()==2,"declared initial value of a field"); unsigned x=sym<unsigned>("x"); a=x; ItemWithValueAndWidth&i=a; SYM_ASSERT(i.getValue()==x&&i.getWidth()==8&&(unsigned)a==x,"field value"); unsigned r=++a; SYM_ASSERT(r==x+1&&a.getValue()==x+1,"field increment"); r=(b+=x); SYM_ASSERT(r==x&&b.getValue()==x,"field compound"); sym_reach("done");
}
enum Col{ red,green,blue };
static void enums(){ Enum_z<Col> e; SYM_ASSERT((Col)e==red,"zero-initialised enumeration"); Col c=(Col)sym_choice(3,"c"); Col r=(e=c); SYM_ASSERT((Col)e==c&&r==c&&*(&e)==c,"enumeration assignment"); sym_reach("done"); }
template<class T> static void stat(T(*get)()){
	Utils::Statistic<T> s; SYM_ASSERT(s.getCurrent()==0&&s.getAvg()==0&&s.mCnt==0&&s.mMin==0&&s.mMax==0,"empty statistic"); unsigned n=sym_concretize(sym_range(1,sym_param("n",3),"n")); T mn=0,mx=0,last=0; double sum=0;
	for(unsigned i=0;i<n;i++){ T v=get(); if(i==0||v<mn) mn=v; if(i==0||v>mx) mx=v; last=v; sum+=v; s.addPoint(v); SYM_ASSERT(s.getCurrent()==last,"current value"); SYM_ASSERT(s.mMin==mn,"minimum"); SYM_ASSERT(s.mMax==mx,"maximum"); SYM_ASSERT(s.mCnt==i+1,"count"); SYM_ASSERT(s.getAvg()==sum/(i+1),"average"); }
	sym_reach("done");
}
static void statint(){ stat<int>([]{ return sym<int>("v"); }); } static void statuns(){ stat<unsigned>([]{ return sym<unsigned>("v"); }); } static void statfloat(){ stat<float>([]{ float f=sym_f32("v"); SYM_ASSUME((f>-1e6f)&(f<1e6f)); return f; }); }
static void stattext(){ Utils::Statistic<int> s; int a=sym_range(-3,12,"a"),b=sym_range(-3,12,"b"); s.addPoint(sym_concretize(a)); s.addPoint(sym_concretize(b)); std::ostringstream os; s.text(os); std::string t=os.str(); SYM_ASSERT(t.size()>2&&t[0]=='('&&t[t.size()-1]==')',"printed statistic is parenthesised"); char w[16]; sprintf(w,"(%d",b); SYM_ASSERT(t.compare(0,strlen(w),w)==0,"printed statistic starts with the current value"); sym_reach("done"); }
static void bits(){
	Utils::BitSet b; int k=sym_param("k",4); unsigned q=sym_bits(5,"query"); bool want=false; for(int i=0;i<k;i++){ unsigned w=sym_bits(5,"bit"); if(sym_choice(2,"op")){ b.setBit(w); if(w==q) want=true; } else { b.clearBit(w); if(w==q) want=false; } }
	SYM_ASSERT(b.isSet(q)==want,"isSet differs from the last operation on that bit"); SYM_ASSERT((b.getBit(q)!=0)==want,"getBit differs from the last operation on that bit"); SYM_ASSERT(((b.bits()>>q)&1)==want&&(((unsigned)(int)b>>q)&1)==want,"bits"); SYM_ASSERT(b.getBit(q)==(want?1u<<q:0u),"getBit returns another bit"); sym_reach("done");
}
static void bitstart(){ Utils::BitSet b; unsigned q=sym_bits(5,"q"); SYM_ASSERT(!b.isSet(q)&&b.bits()==0,"a new bit set is empty"); sym_reach("done"); }
extern "C" void harness_main(void){ H(ints) H(inits) H(reals) H(fields) H(enums) H(statint) H(statuns) H(statfloat) H(stattext) H(bits) H(bitstart) sym_fail("unknown case"); }
