/*SPEC
BOUNDS='every string of up to 5 bytes (C-string split and n-th argument), every set of 0..2 separators or the default, every maximum 0..4; vectors: every text of up to 4 bytes and one of 45 words'
OUTSIDE='longer arbitrary strings'
case('split',n=5,reach=['done'],time=500)
case('splitsep',n=4,reach=['done'],time=500)
case('getarg',n=5,reach=['word','none'],time=500)
case('vec',n=4,reach=['done'],time=300)
case('many',reach=['done'],time=200)
case('long',reach=['done'],time=300)
*/
#include "symx.h"
#include "Utils.h"
#include "Configuration.h"
ConfigurationTable gConfig;
#include <string.h>
static bool dws(unsigned char c){ return (c==' ')|(c=='\t')|(c=='\r')|(c=='\n'); }
static bool ws(unsigned char c){ return (c==32)|((c>=9)&(c<=13)); }
static char* str(unsigned n,const char*nm){ char*b=(char*)malloc(n+1); sym_bytes(b,n,nm); for(unsigned i=0;i<n;i++) SYM_ASSUME(b[i]!=0); b[n]=0; return b; }
template<class F> static void chk(char*b,unsigned n,int maxc,const char*sp,F issep){
	char o[64]; memcpy(o,b,n+1); char**av=(char**)malloc(sizeof(char*)*(maxc?maxc:1)); if(!maxc){ free(av); av=(char**)malloc(0); } int c=cstrSplit(b,av,maxc,sp);
	int k=0; unsigned i=0; while(k<maxc){ while(i<n&&issep(o[i])) i++; if(i>=n) break; unsigned s=i; while(i<n&&!issep(o[i])) i++; SYM_ASSERT(k<c,"a token is missing"); SYM_ASSERT(av[k]==b+s,"a token starts elsewhere"); bool ok=b[i]==0; for(unsigned j=s;j<i;j++) ok&=b[j]==o[j]; SYM_ASSERT(ok,"a token is not exactly the run of non-separators, zero-terminated"); k++; if(i<n) i++; }
	SYM_ASSERT(k==c,"number of tokens"); free(av);
}
static void split(){ unsigned n=sym_concretize(sym_range(0,sym_param("n",5),"n")); char*b=str(n,"text"); int m=sym_choice(5,"max"); chk(b,n,m,NULL,dws); free(b); sym_reach("done"); }
static void splitsep(){ unsigned n=sym_concretize(sym_range(0,sym_param("n",4),"n")); char*b=str(n,"text"); unsigned ns=sym_choice(3,"nsep"); char*s=str(ns,"sep"); int m=sym_choice(4,"max"); char c0=ns>0?s[0]:0,c1=ns>1?s[1]:0; chk(b,n,m,s,[=](char c){ return ((ns>0)&(c==c0))|((ns>1)&(c==c1)); }); free(b); free(s); sym_reach("done"); }
static void getarg(){
	unsigned n=sym_concretize(sym_range(0,sym_param("n",5),"n")); char*b=str(n,"text"); int nth=sym_choice(4,"nth")+1; unsigned len=12345; char*r=cstrGetArg(b,nth,&len); unsigned i=0; int k=0; bool found=false; unsigned s=0,e=0; while(1){ while(i<n&&ws(b[i])) i++; if(i>=n) break; s=i; while(i<n&&!ws(b[i])) i++; e=i; if(++k==nth){ found=true; break; } }
	if(found){ SYM_ASSERT(r==b+s,"the n-th word is elsewhere"); SYM_ASSERT(len==e-s,"length of the n-th word"); sym_reach("word"); } else { SYM_ASSERT(r==NULL,"a word is returned although there are fewer"); sym_reach("none"); } free(b);
}
static void vec(){ unsigned n=sym_concretize(sym_range(0,sym_param("n",4),"n")); char*b=str(n,"text"); std::vector<std::string> v; bool pre=sym_choice(2,"pre"); if(pre) v.push_back("x"); std::vector<std::string>&r=stringSplit(v,b); SYM_ASSERT(&r==&v,"returns its result"); unsigned i=0,k=pre; if(pre) SYM_ASSERT(v[0]=="x","earlier elements changed"); while(1){ while(i<n&&dws(b[i])) i++; if(i>=n) break; unsigned s=i; while(i<n&&!dws(b[i])) i++; SYM_ASSERT(k<v.size(),"a word is missing"); SYM_ASSERT(v[k].size()==i-s&&memcmp(v[k].data(),b+s,i-s)==0,"a word differs"); k++; } SYM_ASSERT(v.size()==k,"number of words"); free(b); sym_reach("done"); }
static void many(){ std::string t; unsigned n=sym_choice(10,"n")+36; for(unsigned i=0;i<n;i++){ t+=(char)('a'+i%26); t+=' '; } std::vector<std::string> v; stringSplit(v,t.c_str()); SYM_ASSERT(v.size()==(n<40?n:40),"number of words, at most 40"); for(unsigned i=0;i<v.size();i++) SYM_ASSERT(v[i].size()==1&&v[i][0]==(char)('a'+i%26),"word"); sym_reach("done"); }
static void lng(){ char*b=(char*)malloc(21); memcpy(b,"ab  cd\tefg\r\nh  ij  k",21); unsigned p=sym_choice(20,"p"); b[p]=(char)sym_bits(8,"byte"); SYM_ASSUME(b[p]!=0); chk(b,20,sym_choice(2,"max")?8:3,NULL,dws); free(b); sym_reach("done"); }
extern "C" void harness_main(void){ H(split) H(splitsep) H(getarg) H(vec) H(many) if(sym_param("__f",0)==(int64_t)sym_fnv("long")){ lng(); return; } sym_fail("unknown case"); }
