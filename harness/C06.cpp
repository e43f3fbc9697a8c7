/*SPEC
BOUNDS='every kind and visibility of key, static or not, with units, default and description of 0 to 2 arbitrary characters; every set of scopes; choice lists of 1 to 3 items each with or without a description, one of them with arbitrary characters; value ranges of 1 to 2 intervals with or without a step; current values of 0 to 2 arbitrary characters against defaults of 0 to 2; schemas of up to 3 own keys of every visibility with arbitrary characters in name and description'
OUTSIDE='lists of more items; text with line breaks; TeX special characters other than underscore and caret, which the generator does not claim to handle'
for k in range(21): case('kind.%d'%k,kind=k,reach=['done'],time=300,f='kind')
case('scopes',reach=['done'],time=300)
case('choices',reach=['done'],time=500)
case('ranges',reach=['done'],time=300)
case('key',reach=['done'],time=300)
case('names',reach=['done'],time=300)
for v in range(6): case('tex.%d'%v,vis=v,reach=['done'],time=400,f='tex')
*/
#include "symx.h"
#include "env.h"
#include "sqlite3util.h"
#include "Configuration.h"
#include <string.h>
#include <sstream>
ConfigurationTable gConfig;
typedef ConfigurationKey CK; typedef std::string S;
static S text(int n,const char*nm){ char b[8]; sym_bytes(b,n,nm); for(int i=0;i<n;i++) SYM_ASSUME((b[i]!=0)&(b[i]!='\n')); return S(b,n); }
static bool same(const S&a,const S&b){ if(a.size()!=b.size()) return false; int d=0; for(size_t i=0;i<a.size();i++) d|=a[i]^b[i]; return d==0; }
static std::vector<S> lines(const S&t){ std::vector<S> r; S cur; for(size_t i=0;i<t.size();i++) if(t[i]=='\n'){ r.push_back(cur); cur.clear(); } else cur+=t[i]; SYM_ASSERT(cur.empty(),"every line is ended"); return r; }
// the texts of the lines with this label
static std::vector<S> labelled(const std::vector<S>&l,const char*label){ std::vector<S> r; S p=S(" - ")+label+":"; for(size_t i=0;i<l.size();i++) if(l[i].compare(0,p.size(),p)==0){ size_t j=p.size(); while(j<21&&j<l[i].size()&&l[i][j]==' ') j++; r.push_back(l[i].substr(j)); } return r; }
static bool one(const std::vector<S>&v,const S&w){ return v.size()==1&&same(v[0],w); }
static std::vector<S> describe(const CK&k){ std::ostringstream o; CK::printDescription(k,o); return lines(o.str()); }
static bool optional(int k){ return k==CK::CHOICE_OPT||k==CK::CIDR_OPT||k==CK::FILEPATH_OPT||k==CK::HOSTANDPORT_OPT||k==CK::IPADDRESS_OPT||k==CK::MIPADDRESS_OPT||k==CK::PORT_OPT||k==CK::REGEX_OPT||k==CK::STRING_OPT; }
static void kind(){ int k=sym_param("kind",0),v=sym_choice(6,"visibility"); bool st=sym_choice(2,"static"); S u=text(sym_choice(2,"ulen"),"units"),d=text(sym_choice(3,"dlen"),"default"),e=text(sym_choice(3,"elen"),"description"); if(u.size()) SYM_ASSUME(u[0]!=' '); if(d.size()) SYM_ASSUME(d[0]!=' '); if(e.size()) SYM_ASSUME(e[0]!=' ');
  S vv=k==CK::VALRANGE?"1:5":k==CK::CHOICE?"A|x":sym_choice(2,"valid")?"^a+$":"";
  CK key("My.Key",d,u,(CK::VisibilityLevel)v,(CK::Type)k,vv,st,e); std::vector<S> l=describe(key);
  SYM_ASSERT(one(labelled(l,"description"),e),"the description is the key's"); SYM_ASSERT(u.size()?one(labelled(l,"units"),u):labelled(l,"units").empty(),"the units are the key's, if any"); SYM_ASSERT(d.size()?one(labelled(l,"default value"),d):labelled(l,"default value").empty(),"the default is the key's, if any");
  SYM_ASSERT(one(labelled(l,"type"),CK::typeToString((CK::Type)k)),"the type is the key's"); SYM_ASSERT(one(labelled(l,"visibility level"),CK::visibilityLevelToString((CK::VisibilityLevel)v)),"the visibility is the key's"); SYM_ASSERT(one(labelled(l,"static"),st?"1":"0"),"static as the key"); SYM_ASSERT(labelled(l,"scope").empty(),"no scope was declared");
  std::vector<S> a=labelled(l,"valid values"),b=labelled(l,"valid val regex"),c=labelled(l,"raw valid values"); 
  if(k==CK::BOOLEAN) SYM_ASSERT(a.size()==2&&a[0]=="0 = disabled"&&a[1]=="1 = enabled","values of a boolean"); else if(k==CK::VALRANGE) SYM_ASSERT(one(a,"from 1 to 5"),"the range"); else if(k==CK::CHOICE) SYM_ASSERT(one(a,"A = x"),"the choice"); else if(k==CK::STRING) SYM_ASSERT(one(b,vv),"the pattern"); else SYM_ASSERT(vv.size()?one(c,vv):c.empty(),"the valid values"); sym_reach("done"); }
static void names(){ int a=sym_choice(21,"a"),b=sym_choice(21,"b"); S x=CK::typeToString((CK::Type)a),y=CK::typeToString((CK::Type)b); SYM_ASSERT((a==b)==(x==y),"every type has its own name"); SYM_ASSERT((x.find("(optional)")!=S::npos)==optional(a),"optional types are named so"); int v=a%6,w=b%6; SYM_ASSERT((v==w)==(CK::visibilityLevelToString((CK::VisibilityLevel)v)==CK::visibilityLevelToString((CK::VisibilityLevel)w)),"every visibility has its own name"); sym_reach("done"); }
static void scopes(){ unsigned s=sym_choice(32,"scope"); CK key("K","d","",CK::CUSTOMER,CK::BOOLEAN,"",false,"e",s); std::vector<S> l=labelled(describe(key),"scope"); static const char*W[]={"unique across all nodes","the same across all nodes","unique across all neighbors","the same across all neighbors","specific to each individual node"};
  for(int i=0;i<5;i++){ bool has=false; for(size_t j=0;j<l.size();j++) if(l[j].find(W[i])!=S::npos) has=true; SYM_ASSERT(has==((s>>i)&1),"exactly the declared scopes are stated"); } sym_reach("done"); }
static void choices(){ int n=1+sym_choice(3,"items"),w=sym_choice(n,"arbitrary"); S all; std::vector<S> want; for(int i=0;i<n;i++){ S v=i==w?text(1+sym_choice(2,"vlen"),"value"):S(1,'A'+i); for(size_t j=0;j<v.size();j++) SYM_ASSUME((v[j]!=',')&(v[j]!='|')&(v[j]!=' ')); S it=v,out=v; if(sym_choice(2,"described")){ it+="|x y"; out+=" = x y"; } if(i) all+=","; all+=it; want.push_back(out); }
  CK key("K","A","",CK::CUSTOMER,CK::CHOICE,all,false,"e"); std::vector<S> l=labelled(describe(key),"valid values"); SYM_ASSERT(l.size()==(size_t)n,"one line for every choice"); for(int i=0;i<n;i++) SYM_ASSERT(same(l[i],want[i]),"every choice is stated with its own description"); sym_reach("done"); }
static void ranges(){ static const char*R[]={"0:9","-5:5","0.5:1.5"}; static const char*W[]={"from 0 to 9","from -5 to 5","from 0.5 to 1.5"}; int n=1+sym_choice(2,"n"); S all; std::vector<S> want; for(int i=0;i<n;i++){ int r=sym_choice(3,"r"); if(i) all+=","; all+=R[r]; want.push_back(W[r]); } if(sym_choice(2,"step")) all+="(2)"; CK key("K","1","",CK::CUSTOMER,CK::VALRANGE,all,false,"e"); std::vector<S> l=labelled(describe(key),"valid values"); SYM_ASSERT(l.size()==(size_t)n,"one line for every range"); for(int i=0;i<n;i++) SYM_ASSERT(l[i]==want[i],"every range is stated"); sym_reach("done"); }
static void key(){ S d=text(sym_choice(3,"dlen"),"default"),c=text(sym_choice(3,"clen"),"current"); CK k("My.Key",d,"",CK::CUSTOMER,CK::STRING,"",false,"e"); std::ostringstream o; CK::printKey(k,c,o); S w="My.Key "+(c.size()?c:S("(disabled)")); if(same(c,d)) w+="     [default]"; SYM_ASSERT(same(o.str(),w+"\n"),"the key with its current value"); sym_reach("done"); }
static S esc(const S&s){ S r; for(size_t i=0;i<s.size();i++){ if(s[i]=='_'||s[i]=='^') r+='\\'; r+=s[i]; } return r; }
static void tex(){ int v=sym_param("vis",0),w=sym_choice(6,"other"); S x=text(1,"n"),y=text(1,"d"); SYM_ASSUME((x[0]!='\\')&(y[0]!='\\')&(x[0]!='{')&(x[0]!='}')); S n1="Ab"+x+".K",n2="Zz_k"; ConfigurationKeyMap m; { CK k(n1,"1","",(CK::VisibilityLevel)v,CK::BOOLEAN,"",false,"a "+y+" b"); m[n1]=k; } { CK k(n2,"1","",(CK::VisibilityLevel)w,CK::STRING,"",true,"what_it^is"); m[n2]=k; }
  ConfigurationTable t("t.db","test",m); S tx=t.getTeX("prog_x","v1"); std::vector<S> l=lines(tx); static const int sec[]={1,0,1,1,2,2}; int cur=-1,seen1=0,seen2=0,items=0; S i1=esc("	\\item \\texttt{"+n1+"} -- a "+y+" b"),i2="	\\item \\texttt{Zz\\_k} -- what\\_it\\^is";
  for(size_t i=0;i<l.size();i++){ if(l[i].compare(0,9,"\\section{")==0) cur++; if(same(l[i],i1)){ seen1++; SYM_ASSERT(cur==sec[v],"the key is in the section of its visibility"); } if(same(l[i],i2)){ seen2++; SYM_ASSERT(cur==sec[w],"the key is in the section of its visibility"); } if(l[i].compare(0,6,"	\\item")==0) items++; }
  SYM_ASSERT(cur==2,"three sections"); SYM_ASSERT(seen1==1&&seen2==1,"every key is documented exactly once"); SYM_ASSERT(items==(int)t.mSchema.size(),"every key of the schema is documented"); sym_reach("done"); }
extern "C" void harness_main(void){ H(kind) H(names) H(scopes) H(choices) H(ranges) H(key) H(tex) sym_fail("unknown case"); }
