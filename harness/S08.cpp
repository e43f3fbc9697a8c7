/*SPEC
BOUNDS='tables of 1 to 3 rows of 0 to 3 cells each, every cell of 0 to 2 arbitrary characters or the underscore; cells of 98 to 102, 246 to 252, 300 and 1000 characters next to short ones; rows of 28 to 33 cells; padded and tab separated; statistics of 0 to 3 samples, every 8-bit value, and counts at 999999, 1000000, 12345678 and 4294967295; objects printing up to 3 arbitrary characters'
OUTSIDE='cells with line breaks or NUL bytes; cells after the 30th of a row (not printed by design); floating point samples other than multiples of a quarter'
for r in range(1,4): case('table.%d'%r,rows=r,reach=['done'],time=700,f='table')
case('long',reach=['done'],time=500)
case('wide',reach=['done'],time=500)
case('tabs',reach=['done'],time=500)
for t in range(3): case('stat.%d'%t,type=t,reach=['done'],time=500,f='stat')
case('many',reach=['done'],time=300)
case('object',reach=['done'],time=300)
*/
#include "symx.h"
#include "Utils.h"
#include "Configuration.h"
ConfigurationTable gConfig;
#include <string.h>
#include <sstream>
using namespace Utils; typedef std::string S;
static S text(int n,const char*nm){ char b[8]; sym_bytes(b,n,nm); for(int i=0;i<n;i++) SYM_ASSUME((b[i]!=0)&(b[i]!='\n')&(b[i]!='\t')); return S(b,n); }
static bool same(const S&a,const S&b){ if(a.size()!=b.size()) return false; int d=0; for(size_t i=0;i<a.size();i++) d|=a[i]^b[i]; return d==0; }
static S shown(const S&c){ return c=="_"?S():c; }
// the table as printed must be, row by row, its cells, each padded to the widest of its column (of at most 100) and followed by a space
static S expect(const prettyTable_t&t,bool tabs){ S r; for(size_t i=0;i<t.size();i++){ for(size_t c=0;c<t[i].size()&&c<30;c++){ S s=shown(t[i][c]); if(tabs){ if(c) r+="\t"; r+=s; } else { size_t w=0; for(size_t k=0;k<t.size();k++) if(c<t[k].size()){ size_t l=t[k][c].size(); if(l>100) l=100; if(l>w) w=l; } r+=s; if(s.size()<w) r.append(w-s.size(),' '); r+=" "; } } r+="\n"; } return r+"\n"; }
static void check(prettyTable_t&t,bool tabs){ prettyTable_t was=t; std::ostringstream o; if(tabs||sym_choice(2,"explicit")) printPrettyTable(t,o,tabs); else printPrettyTable(t,o); SYM_ASSERT(same(o.str(),expect(was,tabs)),"every cell is printed in its row and column"); sym_reach("done"); }
static S cell(){ switch(sym_choice(4,"cell")){ case 0: return ""; case 1: return "_"; case 2: return text(1,"c"); default: return text(2,"c"); } }
static void table(){ int n=sym_param("rows",1); prettyTable_t t; int sy=sym_choice(n,"row"); for(int i=0;i<n;i++){ std::vector<S> r; int m=i==sy?sym_choice(4,"cells"):sym_choice(3,"width"); for(int j=0;j<m;j++) r.push_back(i==sy?cell():j==i%2?S("abc"):S("_")); t.push_back(r); } check(t,false); }
static void tabs(){ prettyTable_t t; int n=1+sym_choice(2,"rows"); for(int i=0;i<n;i++){ std::vector<S> r; int m=sym_choice(i?3:4,"cells"); for(int j=0;j<m;j++) r.push_back(i?S(j,'q'):cell()); t.push_back(r); } check(t,true); }
static void longs(){ static const int L[]={98,99,100,101,102,246,247,248,249,250,251,252,300,1000}; prettyTable_t t; int n=L[sym_choice(14,"size")]; S big=text(1,"f")+S(n-2,'m')+text(1,"l"); int col=sym_choice(2,"col"); std::vector<S> a,b; for(int j=0;j<3;j++){ a.push_back(j==col?big:S("ab")); b.push_back(j==col?S("x"):S(j==2?"yz!":"_")); } if(sym_choice(2,"order")) std::swap(a,b); t.push_back(a); t.push_back(b); check(t,sym_choice(2,"tabs")); }
static void wide(){ int n=28+sym_choice(6,"cells"),w=sym_choice(n,"which"); prettyTable_t t(2); for(int j=0;j<n;j++){ t[0].push_back(j==w?text(2,"c"):S(1,'a'+j%26)); t[1].push_back("_"); } check(t,sym_choice(2,"tabs")); }
static S avg(double d){ std::ostringstream o; o<<d; return o.str(); }
template<class T> static S num(T v){ std::ostringstream o; o<<v; return o.str(); }
template<class T> static void st(double scale){ Statistic<T> s; int n=sym_choice(4,"samples"); T v[3]; double sum=0; T lo=0,hi=0; for(int i=0;i<n;i++){ static const int V[]={0,1,7,200,100}; int x=V[sym_choice(5,"v")]; v[i]=(T)(x*scale); s.addPoint(v[i]); sum+=v[i]; if(i==0||v[i]<lo) lo=v[i]; if(i==0||v[i]>hi) hi=v[i]; }
  S w="("+num<T>(n?v[n-1]:(T)0); if(lo!=hi) w+=" min="+num<T>(lo)+" max="+num<T>(hi)+" avg="+avg(sum/n)+" N="+num<int>(n); w+=")"; std::ostringstream a,b; s.text(a); b<<s; SYM_ASSERT(same(a.str(),w),"the statistic prints its current, least, greatest and mean value and its count"); SYM_ASSERT(same(b.str(),w),"streaming prints the same"); sym_reach("done"); }
static void stat(){ switch(sym_param("type",0)){ case 0: st<int>(1); break; case 1: st<unsigned>(1); break; default: if(sym_choice(2,"dbl")) st<double>(0.25); else st<float>(0.25); } }
static void many(){ static const unsigned N[]={999999,1000000,1234567,12345678,4294967295u}; static const char*W[]={"999999","1e06","1.23e06","1.23e07","4.29e09"}; int i=sym_choice(5,"n"); Statistic<int> s; s.addPoint(1); s.addPoint(3); s.mCnt=N[i]; s.mSum=2.0*N[i]; std::ostringstream o; o<<s; SYM_ASSERT(same(o.str(),S("(3 min=1 max=3 avg=2 N=")+W[i]+")"),"a large count is printed shortened"); sym_reach("done"); }
struct Obj : public Text2Str { S t; void text(std::ostream&os) const { os<<t; } };
static void object(){ Obj o; o.t=text(sym_choice(4,"n"),"t"); SYM_ASSERT(same(o.str(),o.t),"the text of an object is what it prints"); std::ostringstream a,b,c; a<<"<"<<(const Text2Str*)&o<<">"; SYM_ASSERT(same(a.str(),"<"+o.t+">"),"streaming an object prints its text"); b<<(const Text2Str*)0; SYM_ASSERT(b.str()=="(null)","streaming no object says so"); c<<o.t; std::ostringstream d; Utils::operator<<(d,c); SYM_ASSERT(same(d.str(),o.t),"streaming a string stream prints its contents"); sym_reach("done"); }
extern "C" void harness_main(void){ H(table) if(sym_param("__f",0)==(int64_t)sym_fnv("long")){ longs(); return; } H(wide) H(tabs) H(stat) H(many) H(object) sym_fail("unknown case"); }
