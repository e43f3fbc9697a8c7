/*SPEC
BOUNDS='every pair of 32-bit raw values whose exact result is representable; every int in [-32768,32767]; every float below 32768 in magnitude (finite)'
OUTSIDE='results outside the 16.16 range; NaN and infinities'
for f in ['addsub','compare','fromint','assign','mul','div','compound','fromfloat','fromdouble','tofloat','scalarmul','scalardiv','scalarcmp','reals']: case(f,reach=['done'],time=400,qt=300000)
*/
#include "symx.h"
#include "F16.h"
#include <sstream>
static F16 mk(int32_t r){ F16 x; x.raw()=r; return x; }
static const int64_t MX=2147483647ll, MN=-2147483648ll;
static void addsub(){
	int32_t a=sym<int32_t>("a"),b=sym<int32_t>("b"); int64_t s=(int64_t)a+b,d=(int64_t)a-b; F16 x=mk(a),y=mk(b);
	if(s>=MN&&s<=MX){ SYM_ASSERT((x+y).raw()==s,"sum is not exact"); F16 t=x; F16&r=(t+=y); SYM_ASSERT(t.raw()==s&&&r==&t,"+= disagrees with +"); }
	if(d>=MN&&d<=MX){ SYM_ASSERT((x-y).raw()==d,"difference is not exact"); F16 t=x; F16&r=(t-=y); SYM_ASSERT(t.raw()==d&&&r==&t,"-= disagrees with -"); }
	SYM_ASSERT(x.raw()==a&&y.raw()==b,"an operand changed"); sym_reach("done");
}
static void compare(){ int32_t a=sym<int32_t>("a"),b=sym<int32_t>("b"); F16 x=mk(a),y=mk(b); SYM_ASSERT((x<y)==(a<b)&&(x>y)==(a>b)&&(x==y)==(a==b),"comparison is not that of the exact values"); sym_reach("done"); }
static void fromint(){ int i=sym<int32_t>("i"); SYM_ASSUME(i>=-32768&&i<=32767); F16 x(i); SYM_ASSERT(x.raw()==(int64_t)i*65536,"conversion from an integer is not exact"); F16 y; F16 r=(y=i); SYM_ASSERT(y.raw()==(int64_t)i*65536&&r.raw()==y.raw(),"assignment from an integer is not exact"); SYM_ASSERT(x.f()==(float)i,"integer value read back as float"); sym_reach("done"); }
static void assign(){
	int32_t a=sym<int32_t>("a"); F16 x=mk(a),y(x),z; SYM_ASSERT(y.raw()==a,"copy construction"); F16 r=(z=x); SYM_ASSERT(z.raw()==a,"plain assignment does not store the value"); SYM_ASSERT(r.raw()==a,"value of a plain assignment expression is not the assigned value");
	F16 p,q; p=q=x; SYM_ASSERT(p.raw()==a&&q.raw()==a,"chained assignment"); z=z; SYM_ASSERT(z.raw()==a,"self assignment"); sym_reach("done");
}
static void mul(){
	int32_t a=sym<int32_t>("a"),b=sym<int32_t>("b"); int64_t p=(int64_t)a*(int64_t)b; SYM_ASSUME((p>=MN*65536)&(p<=MX*65536)); F16 x=mk(a),y=mk(b); int64_t r=(x*y).raw(); int64_t e=(int64_t)((uint64_t)r<<16)-p;
	SYM_ASSERT((e>-65536)&(e<65536),"product differs from the exact value by a unit in the last place or more"); F16 t=x; F16&q=(t*=y); SYM_ASSERT(t.raw()==r&&&q==&t,"*= disagrees with *"); sym_reach("done");
}
static void div(){
	int32_t a=sym<int32_t>("a"),b=sym<int32_t>("b"); SYM_ASSUME(b!=0); int64_t q=((int64_t)a*65536)/(int64_t)b; SYM_ASSUME((q>=MN)&(q<=MX)); F16 x=mk(a),y=mk(b); int64_t r=(x/y).raw();
	SYM_ASSERT((r-q>=-1)&(r-q<=1),"quotient differs from the exact value by more than a unit in the last place"); F16 t=x; F16&z=(t/=y); SYM_ASSERT(t.raw()==r&&&z==&t,"/= disagrees with /"); sym_reach("done");
}
static void compound(){	// operations on itself
	int32_t a=sym<int32_t>("a"); F16 x=mk(a); if(a>-1000000000&&a<1000000000){ F16 t=x; t+=t; SYM_ASSERT(t.raw()==2*a,"x+=x"); } { F16 t=x; t-=t; SYM_ASSERT(t.raw()==0,"x-=x"); } if(a!=0){ F16 t=x; t/=t; SYM_ASSERT(t.raw()==65536,"x/=x"); } if(a>-11863283&&a<11863283){ F16 t=x; t*=t; SYM_ASSERT(t.raw()==(x*x).raw(),"x*=x"); } sym_reach("done");
}
static float finite(const char*n){ float f=sym_f32(n); SYM_ASSUME((f>-32768.0f)&(f<32768.0f)); return f; }
static bool near(int32_t raw,double exact){ double d=(double)raw-exact; return (d<=1.0)&(d>=-1.0); }
static void fromfloat(){ float f=finite("f"); F16 x(f); SYM_ASSERT(near(x.raw(),(double)f*65536.0),"conversion from float is not correct to within rounding"); F16 y; F16 r=(y=f); SYM_ASSERT(y.raw()==x.raw()&&r.raw()==x.raw(),"assignment from float disagrees with conversion"); int32_t k=sym<int32_t>("k"); SYM_ASSUME((k>-8388608)&(k<8388608)); F16 z(k/65536.0f); SYM_ASSERT(z.raw()==k,"conversion of a representable float is not exact"); sym_reach("done"); }
static void fromdouble(){ double d=sym_f64("d"); SYM_ASSUME((d>-32767.9)&(d<32767.9)); F16 x(d); float f=(float)d; SYM_ASSERT(near(x.raw(),(double)f*65536.0),"conversion from double is not correct to within rounding"); sym_reach("done"); }
static void tofloat(){ int32_t a=sym<int32_t>("a"); float f=mk(a).f(); double e=(double)f*65536.0-(double)a; SYM_ASSERT((e<=64.0)&(e>=-64.0),"conversion to float is not correct to within rounding"); if(a>-16777216&&a<16777216) SYM_ASSERT(e==0.0,"conversion to float of a representable value is not exact"); sym_reach("done"); }
static void scalarmul(){ int32_t a=sym<int32_t>("a"); float f=sym_f32("f"); float p=(float)a*f; SYM_ASSUME((p>-2147483648.0f)&(p<2147483648.0f)); F16 x=mk(a),r=x*f; F16 t=x; F16&q=(t*=f); SYM_ASSERT(t.raw()==r.raw()&&&q==&t,"*= disagrees with * for a float factor"); double e=(double)r.raw()-(double)p; SYM_ASSERT((e<1.0)&(e>-1.0),"product with a float"); sym_reach("done"); }
static void scalardiv(){ int32_t a=sym<int32_t>("a"); float f=sym_f32("f"); float p=(float)a/f; SYM_ASSUME((p>-2147483648.0f)&(p<2147483648.0f)); F16 x=mk(a),r=x/f; F16 t=x; F16&q=(t/=f); SYM_ASSERT(t.raw()==r.raw()&&&q==&t,"/= disagrees with / for a float divisor"); double e=(double)r.raw()-(double)p; SYM_ASSERT((e<1.0)&(e>-1.0),"quotient by a float"); sym_reach("done"); }
static void scalarcmp(){ int32_t a=sym<int32_t>("a"); SYM_ASSUME((a>-16777216)&(a<16777216)); float f=sym_f32("f"); SYM_ASSUME(f==f); F16 x=mk(a); double v=(double)a, w=(double)f*65536.0; SYM_ASSERT((x<f)==(v<w)&&(x>f)==(v>w)&&(x==f)==(v==w),"comparison with a float is not that of the exact values"); sym_reach("done"); }
// fixed-point identities over values with a fractional part
static void reals(){ int32_t a=sym<int32_t>("a"); SYM_ASSUME((a>=-1000*65536)&(a<=1000*65536)); F16 x=mk(a),one(1),zero(0); SYM_ASSERT((x*one).raw()==a,"x*1 != x"); SYM_ASSERT((x/one).raw()==a,"x/1 != x"); SYM_ASSERT((x*zero).raw()==0,"x*0 != 0"); SYM_ASSERT((zero-x).raw()==-a,"0-x"); SYM_ASSERT((x*F16(-1)).raw()==-a,"x*-1"); sym_reach("done"); }
extern "C" void harness_main(void){ H(addsub) H(compare) H(fromint) H(assign) H(mul) H(div) H(compound) H(fromfloat) H(fromdouble) H(tofloat) H(scalarmul) H(scalardiv) H(scalarcmp) H(reals) sym_fail("unknown case"); }
