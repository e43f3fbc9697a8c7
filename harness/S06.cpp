/*SPEC
BOUNDS='every pair of 64-bit values; every 32-digit hexadecimal text in either case; every 32-bit value'
OUTSIDE='texts that are not 32 hexadecimal digits'
case('enc',reach=['done'],time=600)
case('dec',reach=['done'],time=600)
case('round.l',half=1,reach=['done'],time=600)
case('round.h',half=2,reach=['done'],time=600)
case('round.hl',half=0,reach=['done'],time=900,tier='thorough')
case('enc32',reach=['done'],time=400)
case('size',reach=['done'],time=100)
*/
#include "symx.h"
#include "Utils.h"
#include "Configuration.h"
ConfigurationTable gConfig;
using namespace Utils;
static char dig(unsigned v){ v&=15; return (char)(v+'0'+(v>9)*('a'-'0'-10)); }
static void hexeq(const std::string&g,unsigned off,uint64_t v,unsigned n){ bool ok=true; for(unsigned i=0;i<n;i++) ok&=g[off+i]==dig(v>>(4*(n-1-i))); SYM_ASSERT(ok,"hexadecimal text of a value"); }
static void enc(){ uint64_t h=sym<uint64_t>("h"),l=sym<uint64_t>("l"); std::string s=uintToString(h,l); SYM_ASSERT(s.size()==32,"128-bit value has 32 digits"); hexeq(s,0,h,16); hexeq(s,16,l,16); sym_reach("done"); }
static void enc32(){ uint32_t x=sym<uint32_t>("x"); std::string s=uintToString(x); SYM_ASSERT(s.size()==8,"32-bit value has 8 digits"); hexeq(s,0,x,8); sym_reach("done"); }
static void dec(){ char b[33]; uint64_t w[2]={0,0}; for(unsigned i=0;i<32;i++){ unsigned v=sym_bits(4,"digit"); unsigned up=sym_bits(1,"upper"); b[i]=(char)(v+'0'+(v>9)*((up?'A':'a')-'0'-10)); w[i/16]=w[i/16]<<4|v; } b[32]=0; uint64_t h=1,l=2; stringToUint(std::string(b,32),&h,&l); SYM_ASSERT((h==w[0])&(l==w[1]),"parsing 32 hexadecimal digits"); sym_reach("done"); }
static void round(){ static const uint64_t K[]={0,~0ull,0x0123456789abcdefull,0x10}; int half=sym_param("half",0); uint64_t h=half==1?K[sym_choice(4,"hk")]:sym<uint64_t>("h"),l=half==2?K[sym_choice(4,"lk")]:sym<uint64_t>("l"),a=0,b=0; stringToUint(uintToString(h,l),&a,&b); SYM_ASSERT((a==h)&(b==l),"a 128-bit value survives conversion to text and back"); sym_reach("done"); }
static void size(){ unsigned n=sym_choice(40,"len"); uint64_t h,l; int r=sym_try_f([&]{ stringToUint(std::string(n,'1'),&h,&l); }); SYM_ASSERT((r==0)==(n==32),"only 32-digit text is accepted"); sym_reach("done"); }
extern "C" void harness_main(void){ H(enc) H(dec) H(round) H(enc32) H(size) sym_fail("unknown case"); }
