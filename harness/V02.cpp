/*SPEC
BOUNDS='vectors of every length 0..n (n=33 for packing, 9 (thorough 11) for text, 40 with one arbitrary bit at any place, 20 for hex), every bit content; unhex text: every byte string of length up to 5'
OUTSIDE='longer vectors; white space inside hexadecimal text'
case('packing',n=33,reach=['rem','whole','empty'],time=200)
case('unpacking',n=33,reach=['done'],time=200)
case('dirty',n=17,reach=['done'],time=100)
case('text',n=11 if THOROUGH else 9,reach=['done'],time=200)
case('textlong',n=40,reach=['done'],time=200)
case('textany',n=6,reach=['done'],time=200)
case('hexrt',n=20,reach=['done'],time=200)
case('hexin',n=14,reach=['ok','bad'],time=200)
case('hexlong',n=64,reach=['done'],time=200)
*/
#include "symx.h"
#include "BitVector.h"
#include <sstream>
using namespace std;
enum { MAXN=96 };
static void packing(){
	unsigned n=sym_concretize(sym_range(0,sym_param("n",33),"n")); unsigned nb=(n+7)/8; char b[MAXN];
	BitVector v((size_t)n); for(unsigned i=0;i<n;i++) b[i]=v[i]=sym_bits(1,"bit");
	unsigned char*p=new unsigned char[nb+2]; p[0]=0xa5; p[nb+1]=0x5a; v.pack(p+1);
	SYM_ASSERT(p[0]==0xa5&&p[nb+1]==0x5a,"pack writes outside ceil(n/8) bytes");
	bool ok=true; for(unsigned i=0;i<n;i++) ok&=((p[1+i/8]>>(7-i%8))&1)==b[i]; SYM_ASSERT(ok,"packed bits are not the vector's bits, MSB first");
	for(unsigned i=n;i<nb*8;i++) ok&=((p[1+i/8]>>(7-i%8))&1)==0; SYM_ASSERT(ok,"padding is not zero");
	string s=v.packToString(); SYM_ASSERT(s.size()==nb,"packToString length"); for(unsigned i=0;i<nb;i++) ok&=(unsigned char)s[i]==p[1+i]; SYM_ASSERT(ok,"packToString and pack disagree");
	unsigned char*q=new unsigned char[nb?nb:1]; for(unsigned i=0;i<nb;i++) q[i]=p[1+i];
	BitVector w((size_t)n); w.fill(7); w.unpack(q); for(unsigned i=0;i<n;i++) ok&=w.begin()[i]==b[i]; SYM_ASSERT(ok,"unpack(pack(v)) != v"); SYM_ASSERT(w==v,"unpack(pack(v)) does not compare equal to v");
	delete[] p; delete[] q; sym_reach(n==0?"empty":n%8?"rem":"whole");
}
static void unpacking(){	// from any bytes
	unsigned n=sym_concretize(sym_range(0,sym_param("n",33),"n")); unsigned nb=(n+7)/8; unsigned char*q=new unsigned char[nb?nb:1]; sym_bytes(q,nb,"bytes");
	BitVector w((size_t)n); w.unpack(q); bool ok=true;
	for(unsigned i=0;i<n;i++) ok&=w.begin()[i]==((q[i/8]>>(7-i%8))&1); SYM_ASSERT(ok,"unpacked bits are not the bytes' bits, MSB first");
	unsigned char*r=new unsigned char[nb?nb:1]; w.pack(r); for(unsigned i=0;i<n/8;i++) ok&=r[i]==q[i]; SYM_ASSERT(ok,"pack(unpack(bytes)) != bytes"); delete[] q; delete[] r; sym_reach("done");
}
static void dirty(){	// only the low bit of an element counts
	unsigned n=sym_concretize(sym_range(0,sym_param("n",17),"n")); BitVector v((size_t)n); sym_bytes(v.begin(),n,"content"); unsigned nb=(n+7)/8;
	unsigned char*p=new unsigned char[nb?nb:1]; v.pack(p); bool ok=true; for(unsigned i=0;i<n;i++) ok&=((p[i/8]>>(7-i%8))&1)==(v.begin()[i]&1); SYM_ASSERT(ok,"packed bits");
	for(unsigned i=n;i<nb*8;i++) ok&=((p[i/8]>>(7-i%8))&1)==0; SYM_ASSERT(ok,"padding is not zero");
	string s=v.packToString(); SYM_ASSERT(s.size()==nb,"packToString length"); for(unsigned i=0;i<nb;i++) ok&=(unsigned char)s[i]==p[i]; SYM_ASSERT(ok,"packToString and pack disagree"); delete[] p; sym_reach("done");
}
static void text(){
	unsigned n=sym_concretize(sym_range(0,sym_param("n",24),"n")); char*t=new char[n+1]; for(unsigned i=0;i<n;i++) t[i]='0'+sym_bits(1,"bit"); t[n]=0;
	BitVector v(t); SYM_ASSERT(v.size()==n,"size of a vector built from text"); bool ok=true; for(unsigned i=0;i<n;i++) ok&=v.begin()[i]==t[i]-'0'; SYM_ASSERT(ok,"bits of a vector built from text");
	ostringstream os; os<<v; string s=os.str(); SYM_ASSERT(s.size()==n,"printed length"); for(unsigned i=0;i<n;i++) ok&=s[i]==t[i]; SYM_ASSERT(ok,"printing a parsed vector is not the identity");
	delete[] t; sym_reach("done");
}
static void textlong(){
	unsigned n=sym_param("n",40); char*t=new char[n+1]; for(unsigned i=0;i<n;i++) t[i]='0'; t[n]=0; unsigned at=sym_concretize(sym_range(0,n-1,"at")); t[at]='0'+sym_bits(1,"bit"); bool ok=true;
	BitVector v(t); ostringstream os; os<<v; string s=os.str(); SYM_ASSERT(s.size()==n,"printed length"); for(unsigned i=0;i<n;i++) ok&=s[i]==t[i]; SYM_ASSERT(ok,"printing a parsed vector is not the identity"); delete[] t; sym_reach("done");
}
static void textany(){
	unsigned n=sym_concretize(sym_range(0,sym_param("n",6),"n")); char*t=new char[n+1]; sym_bytes(t,n,"text"); t[n]=0; for(unsigned i=0;i<n;i++) SYM_ASSUME(t[i]!=0);
	BitVector v(t); SYM_ASSERT(v.size()==n,"size"); bool ok=true; for(unsigned i=0;i<n;i++) ok&=v.begin()[i]==(t[i]=='1'); SYM_ASSERT(ok,"a character other than 1 must map to 0, 1 to 1"); delete[] t; sym_reach("done");
}
static void hexcheck(unsigned n){
	BitVector v((size_t)n); for(unsigned i=0;i<n;i++) v[i]=sym_bits(1,"bit");
	string s=v.hexstr(); SYM_ASSERT(s.size()==n/4,"hex text does not have n/4 digits"); bool ok=true;
	for(unsigned i=0;i<n/4;i++){ unsigned d=v[4*i]*8+v[4*i+1]*4+v[4*i+2]*2+v[4*i+3]; char c=s[i]; unsigned e=c>='0'&&c<='9'?c-'0':c>='a'&&c<='f'?c-'a'+10:c>='A'&&c<='F'?c-'A'+10:99; SYM_ASSERT(e==d,"hex digit is wrong"); }
	BitVector w((size_t)n); w.fill(1); SYM_ASSERT(w.unhex(s.c_str()),"unhex refuses its own hex text"); for(unsigned i=0;i<n;i++) ok&=w[i]==v[i]; SYM_ASSERT(ok,"unhex(hex(v)) != v");
	ostringstream os; v.hex(os); os<<10; SYM_ASSERT(os.str()==s+"10","hex leaves the stream's number format changed");
	sym_reach("done");
}
static void hexrt(){ hexcheck(4*(unsigned)sym_concretize(sym_range(0,sym_param("n",20)/4,"quads"))); }
static void hexlong(){	// one symbolic digit at any place in a long vector
	unsigned n=sym_param("n",64); BitVector v((size_t)n); v.zero(); unsigned at=sym_concretize(sym_range(0,n/4-1,"at")); for(unsigned i=0;i<4;i++) v[4*at+i]=sym_bits(1,"bit");
	string s=v.hexstr(); SYM_ASSERT(s.size()==n/4,"hex text does not have n/4 digits"); BitVector w((size_t)n); w.fill(1); SYM_ASSERT(w.unhex(s.c_str()),"unhex refuses its own hex text"); SYM_ASSERT(w==v,"unhex(hex(v)) != v"); sym_reach("done");
}
static int hv(char c){ return c>='0'&&c<='9'?c-'0':c>='a'&&c<='f'?c-'a'+10:c>='A'&&c<='F'?c-'A'+10:-1; }
static void hexin(){
	unsigned n=sym_concretize(sym_range(0,sym_param("n",14),"n")), nd=(n+3)/4; unsigned len=sym_concretize(sym_range(0,nd+1,"len")); char*t=new char[len+1]; sym_bytes(t,len,"text"); t[len]=0;
	for(unsigned i=0;i<len;i++) SYM_ASSUME(t[i]!=0&&t[i]!=' '&&!(t[i]>=9&&t[i]<=13));
	BitVector v((size_t)n); v.zero(); bool r=v.unhex(t), want=len>=nd; for(unsigned i=0;i<len&&i<nd;i++) if(hv(t[i])<0) want=false;
	SYM_ASSERT(r==want,"unhex must succeed exactly on hexadecimal text that is long enough");
	if(r){ bool ok=true; for(unsigned i=0;i<n/4;i++) for(unsigned k=0;k<4;k++) ok&=v[4*i+k]==((hv(t[i])>>(3-k))&1); unsigned rem=n%4,w=n-rem; for(unsigned k=0;k<rem;k++) ok&=v[w+k]==((hv(t[n/4])>>(rem-1-k))&1); SYM_ASSERT(ok,"unhex stored wrong bits"); sym_reach("ok"); } else sym_reach("bad");
	delete[] t;
}
extern "C" void harness_main(void){ H(packing) H(unpacking) H(dirty) H(text) H(textlong) H(textany) H(hexrt) H(hexlong) H(hexin) sym_fail("unknown case"); }
