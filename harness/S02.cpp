/*SPEC
BOUNDS='encoding and decoding back: every byte string of length 0..7, white space at any one place; decoding: every text of length 0..4 (thorough 5), and of length 8 with two arbitrary bytes; every letter case of the encoding names, every other name of up to 3 bytes'
OUTSIDE='longer texts of arbitrary bytes'
case('std64',n=7,reach=['done'],time=300)
case('stdhex',n=7,reach=['done'],time=300)
case('binary',n=7,reach=['done'],time=300)
case('space',n=4,reach=['done'],time=500)
case('dec64',n=4,reach=['bad','good'],time=600)
case('dechex',n=4,reach=['bad','good'],time=600)
case('dec64deep',f='dec64',n=5,reach=['bad','good'],time=1500,tier='thorough')
case('mid64',f='mid',b64=1,reach=['done'],time=500)
case('midhex',f='mid',b64=0,reach=['done'],time=500)
case('names',reach=['done'],time=300)
case('unknown',n=3,reach=['done'],time=300)
*/
#include "symx.h"
#include "Utils.h"
#include "Configuration.h"
ConfigurationTable gConfig;
#include <string.h>
static const char A64[]="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static int v64(unsigned c){ int r=-1; if((c>='A')&(c<='Z')) r=c-'A'; else if((c>='a')&(c<='z')) r=c-'a'+26; else if((c>='0')&(c<='9')) r=c-'0'+52; else if(c=='+') r=62; else if(c=='/') r=63; return r; }
static int vhex(unsigned c){ if((c>='0')&(c<='9')) return c-'0'; if((c>='A')&(c<='F')) return c-'A'+10; if((c>='a')&(c<='f')) return c-'a'+10; return -1; }
static bool ws(unsigned c){ return (c==32)|((c>=9)&(c<=13)); }
static unsigned char* get(unsigned n,const char*nm){ unsigned char*b=(unsigned char*)malloc(n?n:1); sym_bytes(b,n,nm); if(!n){ free(b); b=(unsigned char*)malloc(0); } return b; }	// exact size: a read past the end is an error
static const char* name64(){ static const char*N[]={"base64","BASE64","Base64"}; return N[sym_choice(3,"name")]; }
static const char* namehex(){ static const char*N[]={"hex","HEX","base16","Base16","hEx"}; return N[sym_choice(5,"name")]; }
static void std64(){
	unsigned n=sym_concretize(sym_range(0,sym_param("n",7),"n")); unsigned char*b=get(n,"data"); std::string e; const char*nm=name64(); std::string t=encodeToString((char*)b,n,nm,e); SYM_ASSERT(e.empty(),"encoding reports an error"); SYM_ASSERT(t.size()==(n+2)/3*4,"length of base64 text"); bool ok=true;
	for(unsigned i=0;i<t.size();i++){ unsigned bit=i*6; if(bit>=n*8){ ok&=t[i]=='='; continue; } unsigned by=bit/8; unsigned w=(b[by]<<8)|(by+1<n?b[by+1]:0); unsigned six=(w>>(16-6-bit%8))&63; ok&=t[i]==A64[six]; }
	SYM_ASSERT(ok,"base64 text is not the standard one"); std::string e2; char*x=(char*)malloc(t.size()); memcpy(x,t.data(),t.size()); std::string d=decodeToString(x,t.size(),nm,e2); SYM_ASSERT(e2.empty(),"decoding reports an error"); SYM_ASSERT(d.size()==n,"decoded length"); ok=true; for(unsigned i=0;i<n;i++) ok&=(unsigned char)d[i]==b[i]; SYM_ASSERT(ok,"base64 does not restore the bytes"); free(x); free(b); sym_reach("done");
}
static void stdhex(){
	unsigned n=sym_concretize(sym_range(0,sym_param("n",7),"n")); unsigned char*b=get(n,"data"); std::string e; const char*nm=namehex(); std::string t=encodeToString((char*)b,n,nm,e); SYM_ASSERT(e.empty(),"encoding reports an error"); SYM_ASSERT(t.size()==2*n,"length of hex text"); bool ok=true; for(unsigned i=0;i<n;i++) ok&=(t[2*i]=="0123456789ABCDEF"[b[i]>>4])&(t[2*i+1]=="0123456789ABCDEF"[b[i]&15]); SYM_ASSERT(ok,"hex text is not the standard one");
	std::string e2; char*x=(char*)malloc(t.size()); memcpy(x,t.data(),t.size()); std::string d=decodeToString(x,t.size(),nm,e2); SYM_ASSERT(e2.empty(),"decoding reports an error"); SYM_ASSERT(d.size()==n,"decoded length"); ok=true; for(unsigned i=0;i<n;i++) ok&=(unsigned char)d[i]==b[i]; SYM_ASSERT(ok,"hex does not restore the bytes"); free(x); free(b); sym_reach("done");
}
static void binary(){ unsigned n=sym_concretize(sym_range(0,sym_param("n",7),"n")); unsigned char*b=get(n,"data"); std::string e; const char*nm=sym_choice(2,"nm")?"binary":"Binary"; std::string t=encodeToString((char*)b,n,nm,e), d=decodeToString((char*)b,n,nm,e); bool ok=(t.size()==n)&(d.size()==n); SYM_ASSERT(ok&&e.empty(),"binary is not verbatim"); for(unsigned i=0;i<n;i++) ok&=((unsigned char)t[i]==b[i])&((unsigned char)d[i]==b[i]); SYM_ASSERT(ok,"binary is not verbatim"); free(b); sym_reach("done"); }
static void space(){	// white space anywhere does not matter
	unsigned n=sym_concretize(sym_range(0,sym_param("n",4),"n")); unsigned char*b=get(n,"data"); std::string e; const char*nm=sym_choice(2,"enc")?"hex":"base64"; std::string t=encodeToString((char*)b,n,nm,e); unsigned p=sym_concretize(sym_range(0,t.size(),"place")); char c=(char)sym_bits(8,"space"); SYM_ASSUME(ws((unsigned char)c)); t.insert(p,sym_choice(2,"twice")+1,c); std::string d=decodeToString(t.data(),t.size(),nm,e); SYM_ASSERT(e.empty(),"white space is reported as an error"); SYM_ASSERT(d.size()==n,"white space changes the decoded length"); bool ok=true; for(unsigned i=0;i<n;i++) ok&=(unsigned char)d[i]==b[i]; SYM_ASSERT(ok,"white space changes the decoded bytes"); free(b); sym_reach("done");
}
static void chk64(const unsigned char*b,unsigned n){
	std::string e; std::string d=decodeToString((const char*)b,n,"base64",e); bool bad=false,pad=false; unsigned long acc=0; unsigned k=0; std::string want; unsigned npad=0;
	for(unsigned i=0;i<n;i++){ if(ws(b[i])) continue; if(b[i]=='='){ pad=true; npad++; continue; } if(pad){ bad=true; continue; } int v=v64(b[i]); if(v<0){ bad=true; continue; } acc=acc<<6|v; k++; if(k%4==0){ want+=(char)(acc>>16); want+=(char)(acc>>8); want+=(char)acc; acc=0; } }
	if(bad){ SYM_ASSERT(!e.empty(),"malformed base64 is not reported"); sym_reach("bad"); return; }
	SYM_ASSERT(e.empty(),"well-formed base64 is reported as malformed"); sym_reach("good"); if(k%4==2) want+=(char)(acc>>4); if(k%4==3){ want+=(char)(acc>>10); want+=(char)(acc>>2); }
	if(k%4!=1) SYM_ASSERT(d.size()==want.size()&&memcmp(d.data(),want.data(),d.size())==0,"decoded base64 differs from its definition");
}
static void dec64(){ unsigned n=sym_concretize(sym_range(0,sym_param("n",4),"n")); unsigned char*b=get(n,"text"); chk64(b,n); free(b); }
static void chkhex(const unsigned char*b,unsigned n){
	std::string e; std::string d=decodeToString((const char*)b,n,"hex",e); bool bad=false; unsigned k=0; unsigned acc=0; std::string want; for(unsigned i=0;i<n;i++){ if(ws(b[i])) continue; int v=vhex(b[i]); if(v<0) bad=true; acc=acc<<4|v; if(++k%2==0) want+=(char)acc; }
	if(bad||k%2){ SYM_ASSERT(!e.empty(),"malformed hex is not reported"); sym_reach("bad"); return; } SYM_ASSERT(e.empty(),"well-formed hex is reported as malformed"); SYM_ASSERT(d.size()==want.size()&&memcmp(d.data(),want.data(),d.size())==0,"decoded hex differs from its definition"); sym_reach("good");
}
static void dechex(){ unsigned n=sym_concretize(sym_range(0,sym_param("n",4),"n")); unsigned char*b=get(n,"text"); chkhex(b,n); free(b); }
static void mid(){ unsigned char*b=(unsigned char*)malloc(8); int h=!sym_param("b64",1); memcpy(b,h?"0aF39B7c":"QUJDREVG",8); unsigned p=sym_choice(8,"p"),q=sym_choice(8,"q"); b[p]=sym_bits(8,"x"); if(q!=p) b[q]=sym_bits(8,"y"); if(h) chkhex(b,8); else chk64(b,8); free(b); sym_reach("done"); }
static void names(){	// any letter case selects the encoding
	static const char*N[]={"hex","base16","base64","binary"}; int k=sym_choice(4,"enc"); std::string nm=N[k]; unsigned m=0; for(unsigned i=0;i<nm.size();i++) if(nm[i]>='a'){ bool up=sym<bool>("upper"); nm[i]-=up?32:0; } std::string e; std::string t=encodeToString("\xa5\x01",2,nm,e); static const char*W[]={"A501","A501","pQE=","\xa5\x01"}; SYM_ASSERT(e.empty()&&t==W[k],"encoding name is not matched case-insensitively"); std::string d=decodeToString(t.data(),t.size(),nm,e); SYM_ASSERT(e.empty()&&d=="\xa5\x01","decoding name is not matched case-insensitively"); (void)m; sym_reach("done");
}
static void unknown(){	// every other name is refused
	unsigned n=sym_concretize(sym_range(0,sym_param("n",3),"n")); char b[8]; sym_bytes(b,n,"name"); std::string nm(b,n); bool hex=n>=3; static const char H1[]="hex"; for(unsigned i=0;i<3&&n>=3;i++) hex&=(b[i]|32)==H1[i]; SYM_ASSUME(!hex); std::string e; std::string t=encodeToString("ab",2,nm,e); SYM_ASSERT(!e.empty(),"unknown encoding accepted"); std::string e2; std::string d=decodeToString("6162",4,nm,e2); SYM_ASSERT(!e2.empty(),"unknown encoding accepted when decoding");
	static const char*M[]={"base64 "," hex","base32","base6","bin","base1","binary2","hexa"}; std::string e3; encodeToString("ab",2,M[sym_choice(8,"other")],e3); SYM_ASSERT(!e3.empty(),"unknown encoding accepted"); sym_reach("done");
}
extern "C" void harness_main(void){ H(std64) H(stdhex) H(binary) H(space) H(dec64) H(dechex) H(mid) H(names) H(unknown) sym_fail("unknown case"); }
