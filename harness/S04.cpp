/*SPEC
BOUNDS='every text of up to 4 bytes, search of up to 2 and replacement of up to 2 bytes; texts of up to 40 bytes over fixed material; first lines: every text of up to 5 bytes, n 1..4; concatenation of 2..7 strings of 0..2 arbitrary bytes'
OUTSIDE='longer arbitrary texts'
case('replace',n=4,reach=['done'],time=600)
case('fixed',reach=['done'],time=300)
case('empty',n=3,reach=['done'],time=300)
case('lines',n=5,reach=['done'],time=400)
case('linesdef',n=3,reach=['done'],time=200)
case('cat',n=2,reach=['done'],time=400)
*/
#include "symx.h"
#include "Utils.h"
#include "Configuration.h"
ConfigurationTable gConfig;
#include <string.h>
static std::string str(unsigned lo,unsigned n,const char*nm){ unsigned k=sym_concretize(sym_range(lo,n,"len")); char b[16]; sym_bytes(b,k,nm); return std::string(b,k); }
static bool eq(const std::string&a,const std::string&b){ if(a.size()!=b.size()) return false; bool ok=true; for(unsigned i=0;i<a.size();i++) ok&=a[i]==b[i]; return ok; }
static std::string spec(const std::string&t,const std::string&s,const std::string&r){ std::string o; size_t i=0; while(i<t.size()){ bool m=i+s.size()<=t.size(); for(size_t j=0;m&&j<s.size();j++) if(t[i+j]!=s[j]) m=false; if(m){ o+=r; i+=s.size(); } else o+=t[i++]; } return o; }
static void replace(){ std::string t=str(0,sym_param("n",4),"text"),s=str(1,2,"search"),r=str(0,2,"replacement"); SYM_ASSERT(eq(replaceAll(t,s,r),spec(t,s,r)),"replacing all occurrences"); sym_reach("done"); }
static void fixed(){ static const char*T[]={"","aaaa","abababab","the cat sat on the mat with the hat","a","xxaxxaxxa"},*S[]={"a","aa","ab","the","at","xxa","zzz","the cat sat on the mat with the hat!"},*R[]={"","a","aa","ab","b","the","a longer replacement than that"}; std::string t=T[sym_choice(6,"t")],s=S[sym_choice(8,"s")],r=R[sym_choice(7,"r")]; SYM_ASSERT(replaceAll(t,s,r)==spec(t,s,r),"replacing all occurrences"); sym_reach("done"); }
static void empty(){ std::string t=str(0,sym_param("n",3),"text"),r=str(0,2,"replacement"); SYM_ASSERT(eq(replaceAll(t,"",r),t),"an empty search string changes nothing"); sym_reach("done"); }
static void lines1(const std::string&t,int n,const std::string&g){ size_t p=0; int k=0; while(p<t.size()&&k<n) if(t[p++]=='\n') k++; SYM_ASSERT(eq(g,t.substr(0,p)),"first lines of a text"); }
static void lines(){ std::string t=str(0,sym_param("n",5),"text"); int n=sym_choice(4,"lines")+1; lines1(t,n,firstlines(t,n)); sym_reach("done"); }
static void linesdef(){ std::string t=str(0,sym_param("n",3),"text"); lines1(t,2,firstlines(t)); sym_reach("done"); }
static void cat(){ unsigned n=sym_choice(6,"count")+2; std::string s[7],w; unsigned lens=sym_choice(4,"pattern"); for(unsigned i=0;i<n;i++){ unsigned k=lens==0?0:lens==1?i%3:lens==2?2:(i+1)%2; char b[4]; sym_bytes(b,k,"s"); s[i]=std::string(b,k); w+=s[i]; } std::string g; switch(n){ case 2: g=stringcat(s[0],s[1]); break; case 3: g=stringcat(s[0],s[1],s[2]); break; case 4: g=stringcat(s[0],s[1],s[2],s[3]); break; case 5: g=stringcat(s[0],s[1],s[2],s[3],s[4]); break; case 6: g=stringcat(s[0],s[1],s[2],s[3],s[4],s[5]); break; default: g=stringcat(s[0],s[1],s[2],s[3],s[4],s[5],s[6]); } SYM_ASSERT(eq(g,w),"concatenation is not the juxtaposition"); sym_reach("done"); }
extern "C" void harness_main(void){ H(replace) H(fixed) H(empty) H(lines) H(linesdef) H(cat) sym_fail("unknown case"); }
