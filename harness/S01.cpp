/*SPEC
BOUNDS='every byte string of length 0..3 (thorough 4); in strings of length 0..40 one arbitrary byte at any place among fixed ones'
OUTSIDE='longer strings of arbitrary bytes (the encoder treats each byte on its own; the place case covers length)'
case('enc',n=3,reach=['done'],time=400)
case('place',n=40,reach=['done'],time=300)
case('deep',f='enc',n=4,reach=['done'],time=900,tier='thorough')
*/
#include "symx.h"
#include "URLEncode.h"
#include <string.h>
static bool unres(unsigned char c){ return ((c>='a')&(c<='z'))|((c>='A')&(c<='Z'))|((c>='0')&(c<='9'))|(c=='-')|(c=='_')|(c=='.')|(c=='!')|(c=='~')|(c=='\'')|(c=='(')|(c==')'); }
static int hexv(unsigned char c){ if((c>='0')&(c<='9')) return c-'0'; if((c>='A')&(c<='F')) return c-'A'+10; if((c>='a')&(c<='f')) return c-'a'+10; return -1; }
static void check(const std::string&in,const std::string&out){	// decode by the standard rules
	size_t i=0,k=0;
	while(i<out.size()){ unsigned char c=out[i]; SYM_ASSERT(k<in.size(),"encoded text stands for more bytes than were given"); unsigned char want=in[k];
		if(c=='%'){ SYM_ASSERT(i+2<out.size(),"escape without two digits"); int a=hexv(out[i+1]),b=hexv(out[i+2]); SYM_ASSERT((a>=0)&(b>=0),"escape without two hexadecimal digits"); SYM_ASSERT(((a<<4)|b)==want,"escape does not stand for the original byte"); SYM_ASSERT(!unres(want),"an unreserved character was escaped"); i+=3; }
		else { SYM_ASSERT(unres(c),"a character that needs escaping was emitted"); SYM_ASSERT(c==want,"an unescaped character differs from the original"); i++; }
		k++; }
	SYM_ASSERT(k==in.size(),"encoded text stands for fewer bytes than were given");
}
static void enc(){ unsigned n=sym_concretize(sym_range(0,sym_param("n",3),"n")); char b[8]; sym_bytes(b,n,"text"); std::string in(b,n),copy(in); std::string out=URLEncode(in); SYM_ASSERT(in==copy,"input changed"); check(in,out); sym_reach("done"); }
static void place(){ unsigned n=sym_concretize(sym_range(1,sym_param("n",40),"n")); unsigned p=sym_concretize(sym_range(0,n-1,"place")); static const char fix[]="aZ09 %+/-_.!~'()*&=\xff\x80\x7f\n\r\0x,;:@#$^[]{}|<>\"?"; std::string in; for(unsigned i=0;i<n;i++) in+=fix[i%(sizeof fix-1)]; in[p]=(char)sym_bits(8,"byte"); check(in,URLEncode(in)); sym_reach("done"); }
extern "C" void harness_main(void){ H(enc) H(place) sym_fail("unknown case"); }
