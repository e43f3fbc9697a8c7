// symx stand-in for the iostreams part of the standard library: same public interface for narrow characters, implemented in the header
// so that it can be executed symbolically.  Only what programs observe through ostream/istream/stringstream/fstream is modelled.
#pragma once
#include <bits/c++config.h>
#include <iosfwd>
#include <string>
#include <exception>
#include <stdexcept>
#include <system_error>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ctime>
#include <cctype>
#include <clocale>
#include <cwchar>
#include <cerrno>
#include <pthread.h>
#include <sched.h>
#include <vector>
#include <memory>
#include <string_view>
extern "C" int __sx_fmt_double(char*,unsigned long,const char*,double);
extern "C" void __sx_out(int fd,const char*,unsigned long);
extern "C" int __sx_fopen(const char*name,int mode); extern "C" long __sx_fread(int h,char*,unsigned long); extern "C" long __sx_fwrite(int h,const char*,unsigned long); extern "C" void __sx_fclose(int h);
namespace std {
class locale { public: locale(){} explicit locale(const char*){} static const locale& classic(){ static locale l; return l; } };
class ios_base { public:
  typedef unsigned fmtflags; typedef unsigned openmode; typedef unsigned iostate; typedef unsigned seekdir; typedef int event;
  static const fmtflags boolalpha=1,dec=2,fixed=4,hex=8,internal=16,left=32,oct=64,right=128,scientific=256,showbase=512,showpoint=1024,showpos=2048,skipws=4096,unitbuf=8192,uppercase=16384;
  static const fmtflags adjustfield=left|right|internal,basefield=dec|oct|hex,floatfield=scientific|fixed;
  static const iostate goodbit=0,badbit=1,eofbit=2,failbit=4; static const openmode app=1,ate=2,binary=4,in=8,out=16,trunc=32; static const seekdir beg=0,cur=1,end=2;
  class Init { public: Init(){} };
  class failure : public runtime_error { public: explicit failure(const char*s):runtime_error(s){} explicit failure(const string&s):runtime_error(s){} };
  fmtflags _f=dec|skipws; streamsize _w=0,_p=6;
  fmtflags flags()const{return _f;} fmtflags flags(fmtflags f){ fmtflags o=_f; _f=f; return o; } fmtflags setf(fmtflags f){ fmtflags o=_f; _f|=f; return o; } fmtflags setf(fmtflags f,fmtflags m){ fmtflags o=_f; _f=(_f&~m)|(f&m); return o; } void unsetf(fmtflags f){ _f&=~f; }
  streamsize width()const{return _w;} streamsize width(streamsize w){ streamsize o=_w; _w=w; return o; } streamsize precision()const{return _p;} streamsize precision(streamsize p){ streamsize o=_p; _p=p; return o; }
  locale imbue(const locale&l){ return l; } locale getloc()const{ return locale(); } static bool sync_with_stdio(bool=true){ return true; }
  virtual ~ios_base(){} protected: ios_base(){} };
inline ios_base& boolalpha(ios_base&b){ b.setf(ios_base::boolalpha); return b; } inline ios_base& noboolalpha(ios_base&b){ b.unsetf(ios_base::boolalpha); return b; }
inline ios_base& hex(ios_base&b){ b.setf(ios_base::hex,ios_base::basefield); return b; } inline ios_base& dec(ios_base&b){ b.setf(ios_base::dec,ios_base::basefield); return b; } inline ios_base& oct(ios_base&b){ b.setf(ios_base::oct,ios_base::basefield); return b; }
inline ios_base& fixed(ios_base&b){ b.setf(ios_base::fixed,ios_base::floatfield); return b; } inline ios_base& scientific(ios_base&b){ b.setf(ios_base::scientific,ios_base::floatfield); return b; } inline ios_base& defaultfloat(ios_base&b){ b.unsetf(ios_base::floatfield); return b; }
inline ios_base& showbase(ios_base&b){ b.setf(ios_base::showbase); return b; } inline ios_base& noshowbase(ios_base&b){ b.unsetf(ios_base::showbase); return b; } inline ios_base& uppercase(ios_base&b){ b.setf(ios_base::uppercase); return b; } inline ios_base& nouppercase(ios_base&b){ b.unsetf(ios_base::uppercase); return b; } inline ios_base& showpos(ios_base&b){ b.setf(ios_base::showpos); return b; } inline ios_base& noshowpos(ios_base&b){ b.unsetf(ios_base::showpos); return b; } inline ios_base& showpoint(ios_base&b){ b.setf(ios_base::showpoint); return b; }
inline ios_base& left(ios_base&b){ b.setf(ios_base::left,ios_base::adjustfield); return b; } inline ios_base& right(ios_base&b){ b.setf(ios_base::right,ios_base::adjustfield); return b; } inline ios_base& internal(ios_base&b){ b.setf(ios_base::internal,ios_base::adjustfield); return b; }
inline ios_base& skipws(ios_base&b){ b.setf(ios_base::skipws); return b; } inline ios_base& noskipws(ios_base&b){ b.unsetf(ios_base::skipws); return b; } inline ios_base& unitbuf(ios_base&b){ return b; }

// The buffer: kind 0 = in-memory string, 1/2 = stdout/stderr, 3 = file
template<> class basic_streambuf<char,char_traits<char>> { public: typedef char char_type; typedef char_traits<char> traits_type; typedef int int_type; typedef streampos pos_type; typedef streamoff off_type;
  string _b; size_t _g=0; int _kind; int _fd=-1;
  explicit basic_streambuf(int k=0):_kind(k){} virtual ~basic_streambuf(){}
  streamsize sputn(const char*p,streamsize n){ if(n<=0) return 0; if(_kind==0) _b.append(p,n); else if(_kind==3){ if(_fd<0) return 0; return __sx_fwrite(_fd,p,n); } else __sx_out(_kind,p,n); return n; }
  int sputc(char c){ sputn(&c,1); return (unsigned char)c; }
  void _fill(){ if(_kind==3&&_fd>=0){ char t[64]; long n; while((n=__sx_fread(_fd,t,64))>0) _b.append(t,n); } }
  int sgetc(){ if(_g<_b.size()) return (unsigned char)_b[_g]; return -1; } int sbumpc(){ if(_g<_b.size()) return (unsigned char)_b[_g++]; return -1; } int snextc(){ sbumpc(); return sgetc(); } int sungetc(){ if(_g>0) return (unsigned char)_b[--_g]; return -1; } streamsize in_avail(){ return _b.size()-_g; }
  streamsize sgetn(char*p,streamsize n){ streamsize i=0; while(i<n&&_g<_b.size()) p[i++]=_b[_g++]; return i; } int pubsync(){ return 0; } };
template<> class basic_ios<char,char_traits<char>> : public ios_base { public: typedef char char_type; typedef char_traits<char> traits_type; typedef int int_type;
  basic_streambuf<char>*_sb=nullptr; iostate _s=goodbit; char _fillc=' '; basic_ostream<char>*_tie=nullptr; iostate _ex=goodbit;
  explicit operator bool()const{ return !fail(); } bool operator!()const{ return fail(); } bool fail()const{ return (_s&(badbit|failbit))!=0; } bool good()const{ return _s==0; } bool eof()const{ return (_s&eofbit)!=0; } bool bad()const{ return (_s&badbit)!=0; } iostate rdstate()const{ return _s; }
  void clear(iostate s=goodbit){ _s=_sb?s:(s|badbit); if(_ex&_s) throw failure("basic_ios::clear"); } void setstate(iostate s){ clear(_s|s); } basic_streambuf<char>*rdbuf()const{ return _sb; } basic_streambuf<char>*rdbuf(basic_streambuf<char>*b){ auto*o=_sb; _sb=b; clear(); return o; }
  iostate exceptions()const{ return _ex; } void exceptions(iostate e){ _ex=e; clear(_s); }
  char fill()const{ return _fillc; } char fill(char c){ char o=_fillc; _fillc=c; return o; } char widen(char c)const{ return c; } char narrow(char c,char)const{ return c; } basic_ostream<char>*tie()const{ return _tie; } basic_ostream<char>*tie(basic_ostream<char>*t){ auto*o=_tie; _tie=t; return o; }
  void init(basic_streambuf<char>*b){ _sb=b; _s=b?goodbit:badbit; } basic_ios& copyfmt(const basic_ios&o){ _f=o._f; _w=o._w; _p=o._p; _fillc=o._fillc; return *this; } explicit basic_ios(basic_streambuf<char>*b){ init(b); } protected: basic_ios(){} };
template<> class basic_ostream<char,char_traits<char>> : virtual public basic_ios<char> { public: typedef char char_type; typedef char_traits<char> traits_type; typedef int int_type; typedef basic_ostream __ostream_type;
  explicit basic_ostream(basic_streambuf<char>*b){ init(b); } 
  class sentry { bool ok; public: explicit sentry(basic_ostream&o):ok(o.good()){} explicit operator bool()const{ return ok; } };
  basic_ostream& _raw(const char*p,size_t n){ if(!good()){ setstate(badbit); return *this; } if(_sb->sputn(p,n)!=(streamsize)n) setstate(badbit); return *this; }
  basic_ostream& _put(const char*p,size_t n){ // padded
    streamsize w=_w; if(w<=(streamsize)n){ _w=0; return _raw(p,n); } size_t pad=w-n; string s; _w=0; if((_f&adjustfield)==left){ s.assign(p,n); s.append(pad,_fillc); } else if((_f&adjustfield)==internal){ size_t k=0; if(n&&(p[0]=='-'||p[0]=='+')) k=1; else if(n>1&&p[0]=='0'&&(p[1]=='x'||p[1]=='X')) k=2; s.assign(p,k); s.append(pad,_fillc); s.append(p+k,n-k); } else { s.append(pad,_fillc); s.append(p,n); } return _raw(s.data(),s.size()); }
  basic_ostream& _num(unsigned long long v,bool neg,bool isSigned){ char b[80]; int i=80; unsigned base=_f&basefield; if(base==hex){ int al=((_f&uppercase)?'A':'a')-'0'-10; do{ unsigned d=v&15; b[--i]=(char)('0'+d+(-(int)(d>9)&al)); v>>=4; }while(v); if((_f&showbase)&&!(i==79&&b[79]=='0')){ b[--i]=(_f&uppercase)?'X':'x'; b[--i]='0'; } } else if(base==oct){ do{ b[--i]='0'+(v&7); v>>=3; }while(v); if((_f&showbase)&&b[i]!='0') b[--i]='0'; } else { do{ b[--i]='0'+v%10; v/=10; }while(v); if(neg) b[--i]='-'; else if(isSigned&&(_f&showpos)) b[--i]='+'; } return _put(b+i,80-i); }
  template<class T,class U> basic_ostream& _sg(T v){ if((_f&basefield)==hex||(_f&basefield)==oct) return _num((U)v,false,false); if(v<0) return _num(0ull-(unsigned long long)(long long)v,true,true); return _num((unsigned long long)v,false,true); }
  basic_ostream& operator<<(short v){ return _sg<short,unsigned short>(v); } basic_ostream& operator<<(unsigned short v){ return _num(v,false,false); } basic_ostream& operator<<(int v){ return _sg<int,unsigned>(v); } basic_ostream& operator<<(unsigned v){ return _num(v,false,false); } basic_ostream& operator<<(long v){ return _sg<long,unsigned long>(v); } basic_ostream& operator<<(unsigned long v){ return _num(v,false,false); } basic_ostream& operator<<(long long v){ return _sg<long long,unsigned long long>(v); } basic_ostream& operator<<(unsigned long long v){ return _num(v,false,false); }
  basic_ostream& operator<<(bool v){ if(_f&boolalpha) return v?_put("true",4):_put("false",5); return _num(v,false,true); }
  basic_ostream& operator<<(const void*p){ fmtflags o=_f; _f=(_f&~basefield)|hex|showbase; if(!p) { _f=o; return _put("0",1); } _num((unsigned long long)p,false,false); _f=o; return *this; } basic_ostream& operator<<(nullptr_t){ return _put("nullptr",7); }
  basic_ostream& operator<<(double d){ char f[32]; int i=0; f[i++]='%'; if(_f&showpos) f[i++]='+'; if(_f&showpoint) f[i++]='#'; f[i++]='.'; streamsize p=_p; if(p<0) p=6; if(p>=100) f[i++]='0'+(p/100)%10; if(p>=10) f[i++]='0'+(p/10)%10; f[i++]='0'+p%10; unsigned ff=_f&floatfield; f[i++]=ff==fixed?'f':ff==scientific?((_f&uppercase)?'E':'e'):((_f&uppercase)?'G':'g'); f[i]=0; char b[512]; int n=__sx_fmt_double(b,sizeof b,f,d); return _put(b,n); }
  basic_ostream& operator<<(float d){ return *this<<(double)d; } basic_ostream& operator<<(long double d){ return *this<<(double)d; }
  basic_ostream& operator<<(basic_ostream&(*fn)(basic_ostream&)){ return fn(*this); } basic_ostream& operator<<(basic_ios<char>&(*fn)(basic_ios<char>&)){ fn(*this); return *this; } basic_ostream& operator<<(ios_base&(*fn)(ios_base&)){ fn(*this); return *this; }
  basic_ostream& operator<<(basic_streambuf<char>*b){ if(!b){ setstate(badbit); return *this; } size_t n=b->_b.size()-b->_g; if(!n) setstate(failbit); _raw(b->_b.data()+b->_g,n); b->_g=b->_b.size(); return *this; }
  basic_ostream& put(char c){ return _raw(&c,1); } basic_ostream& write(const char*p,streamsize n){ return _raw(p,n); } basic_ostream& flush(){ return *this; } streampos tellp(){ return fail()?streampos(-1):streampos(_sb->_b.size()); } basic_ostream& seekp(streampos){ return *this; } protected: basic_ostream(){} };
inline ostream& operator<<(ostream&o,char c){ return o._put(&c,1); } inline ostream& operator<<(ostream&o,signed char c){ char x=c; return o._put(&x,1); } inline ostream& operator<<(ostream&o,unsigned char c){ char x=c; return o._put(&x,1); }
inline ostream& operator<<(ostream&o,const char*s){ if(!s){ o.setstate(ios_base::badbit); return o; } return o._put(s,strlen(s)); } inline ostream& operator<<(ostream&o,const signed char*s){ return o<<(const char*)s; } inline ostream& operator<<(ostream&o,const unsigned char*s){ return o<<(const char*)s; }
inline ostream& operator<<(ostream&o,const string&s){ return o._put(s.data(),s.size()); }
inline ostream& operator<<(ostream&o,basic_string_view<char> s){ return o._put(s.data(),s.size()); }
inline ostream& endl(ostream&o){ return o.put('\n'); } inline ostream& ends(ostream&o){ return o.put('\0'); } inline ostream& flush(ostream&o){ return o; }
template<> class basic_istream<char,char_traits<char>> : virtual public basic_ios<char> { public: typedef char char_type; typedef char_traits<char> traits_type; typedef int int_type; typedef basic_istream __istream_type; streamsize _gc=0;
  explicit basic_istream(basic_streambuf<char>*b){ init(b); }
  bool _pre(bool nosk=false){ if(!good()){ setstate(failbit); return false; } if(!nosk&&(_f&skipws)){ int c; while((c=_sb->sgetc())!=-1&&(c==' '||(c>=9&&c<=13))) _sb->sbumpc(); if(c==-1){ setstate(eofbit|failbit); return false; } } return true; }
  class sentry { bool ok; public: explicit sentry(basic_istream&i,bool n=false):ok(i._pre(n)){} explicit operator bool()const{ return ok; } };
  // integer per num_get: sign, optional 0x for hex/auto base, digits; value clamps with failbit
  bool _int(unsigned long long&v,bool&neg,bool&ovf,bool&any){ int c=_sb->sgetc(); neg=false; ovf=false; any=false; v=0; unsigned bf=_f&basefield; unsigned base=bf==hex?16:bf==oct?8:bf==dec?10:0; if(c=='+'||c=='-'){ neg=c=='-'; _sb->sbumpc(); c=_sb->sgetc(); }
    if((base==0||base==16)&&c=='0'){ any=true; _sb->sbumpc(); c=_sb->sgetc(); if(c=='x'||c=='X'){ _sb->sbumpc(); base=16; any=false; c=_sb->sgetc(); } else if(base==0) base=8; } if(base==0) base=10;
    while(c!=-1){ unsigned dg=(unsigned)c-'0', al=((unsigned)c|32)-'a', isd=dg<10, isa=al<6; if(!(isd|isa)) break; unsigned d=(-isd&dg)|(-isa&(al+10)); if(base!=16&&d>=base) break; any=true; if(base==16){ if(v>>60) ovf=true; else v=v<<4|d; } else if(v>(~0ull-d)/base) ovf=true; else v=v*base+d; _sb->sbumpc(); c=_sb->sgetc(); }
    if(c==-1) _s|=eofbit; return any; }
  template<class T> basic_istream& _sgx(T&r,T mn,T mx){ if(!_pre()) return *this; unsigned long long v; bool neg,ovf,any; if(!_int(v,neg,ovf,any)){ r=0; setstate(failbit); return *this; } unsigned long long lim=neg?0ull-(unsigned long long)(long long)mn:(unsigned long long)mx; if(ovf||v>lim){ r=neg?mn:mx; setstate(failbit); return *this; } r=neg?(T)(0ull-v):(T)v; return *this; }
  template<class T> basic_istream& _usx(T&r,T mx){ if(!_pre()) return *this; unsigned long long v; bool neg,ovf,any; if(!_int(v,neg,ovf,any)){ r=0; setstate(failbit); return *this; } if(ovf||v>(unsigned long long)mx){ r=mx; setstate(failbit); return *this; } r=neg?(T)(0-(T)v):(T)v; return *this; }
  basic_istream& operator>>(short&v){ return _sgx<short>(v,-32768,32767); } basic_istream& operator>>(int&v){ return _sgx<int>(v,-2147483647-1,2147483647); } basic_istream& operator>>(long&v){ return _sgx<long>(v,-9223372036854775807L-1,9223372036854775807L); } basic_istream& operator>>(long long&v){ return _sgx<long long>(v,-9223372036854775807LL-1,9223372036854775807LL); }
  basic_istream& operator>>(unsigned short&v){ return _usx<unsigned short>(v,65535); } basic_istream& operator>>(unsigned&v){ return _usx<unsigned>(v,~0u); } basic_istream& operator>>(unsigned long&v){ return _usx<unsigned long>(v,~0ul); } basic_istream& operator>>(unsigned long long&v){ return _usx<unsigned long long>(v,~0ull); }
  basic_istream& operator>>(bool&b){ if(!_pre()) return *this; if(_f&boolalpha){ string w; int c; while((c=_sb->sgetc())!=-1&&((c>='a'&&c<='z'))&&w.size()<5){ w+=(char)c; _sb->sbumpc(); if(w=="true"||w=="false") break; } b=w=="true"; if(w!="true"&&w!="false") setstate(failbit); return *this; } unsigned long long v; bool neg,ovf,any; if(!_int(v,neg,ovf,any)){ b=false; setstate(failbit); return *this; } b=v!=0; if(v>1||ovf||neg){ b=true; setstate(failbit);} return *this; }
  basic_istream& operator>>(double&d){ if(!_pre()) return *this; string t; int c; bool dot=false,ex=false,dig=false; while((c=_sb->sgetc())!=-1){ if(c>='0'&&c<='9') dig=true; else if(c=='+'||c=='-'){ if(!(t.empty()||t.back()=='e'||t.back()=='E')) break; } else if(c=='.'){ if(dot||ex) break; dot=true; } else if(c=='e'||c=='E'){ if(ex||!dig) break; ex=true; } else break; t+=(char)c; _sb->sbumpc(); } if(c==-1) _s|=eofbit; if(!dig){ d=0; setstate(failbit); return *this; } char*e; d=strtod(t.c_str(),&e); if(*e){ d=0; setstate(failbit); } return *this; }
  basic_istream& operator>>(float&f){ double d; iostate o=_s; *this>>d; if(!(o&(failbit|badbit))&&!((_s&failbit)&&!(_s&0))) f=(float)d; else f=(float)0; return *this; }
  basic_istream& operator>>(void*&p){ unsigned long v=0; fmtflags o=_f; _f=(_f&~basefield)|hex; *this>>v; _f=o; p=(void*)v; return *this; }
  basic_istream& operator>>(basic_istream&(*fn)(basic_istream&)){ return fn(*this); } basic_istream& operator>>(ios_base&(*fn)(ios_base&)){ fn(*this); return *this; }
  int get(){ _gc=0; if(!_pre(true)) return -1; int c=_sb->sbumpc(); if(c==-1) setstate(eofbit|failbit); else _gc=1; return c; } basic_istream& get(char&c){ int x=get(); if(x!=-1) c=(char)x; return *this; } int peek(){ if(!good()) return -1; int c=_sb->sgetc(); if(c==-1) setstate(eofbit); return c; } basic_istream& unget(){ _s&=~eofbit; if(_sb->sungetc()==-1) setstate(badbit); return *this; } basic_istream& putback(char){ return unget(); }
  basic_istream& read(char*p,streamsize n){ _gc=0; if(!_pre(true)) return *this; _gc=_sb->sgetn(p,n); if(_gc<n) setstate(eofbit|failbit); return *this; } streamsize gcount()const{ return _gc; }
  basic_istream& getline(char*p,streamsize n,char d='\n'){ _gc=0; if(n>0) p[0]=0; if(!_pre(true)) return *this; streamsize i=0; for(;;){ int c=_sb->sgetc(); if(c==-1){ _s|=eofbit; break; } if((char)c==d){ _sb->sbumpc(); _gc++; break; } if(i>=n-1){ setstate(failbit); break; } p[i++]=(char)c; _sb->sbumpc(); _gc++; } if(n>0) p[i]=0; if(_gc==0) setstate(failbit); return *this; }
  basic_istream& ignore(streamsize n=1,int d=-1){ if(!_pre(true)) return *this; while(n-->0){ int c=_sb->sbumpc(); if(c==-1){ setstate(eofbit); break; } if(c==d) break; } return *this; } streampos tellg(){ return fail()?streampos(-1):streampos(_sb->_g); } basic_istream& seekg(streampos p){ _s&=~eofbit; if(!fail()) _sb->_g=(streamoff)p; return *this; } basic_istream& seekg(streamoff o,seekdir d){ _s&=~eofbit; if(!fail()) _sb->_g=(d==beg?0:d==cur?_sb->_g:_sb->_b.size())+o; return *this; } int sync(){ return 0; } protected: basic_istream(){} };
inline istream& operator>>(istream&i,char&c){ if(!i._pre()) return i; int x=i.rdbuf()->sbumpc(); if(x==-1) i.setstate(ios_base::eofbit|ios_base::failbit); else c=(char)x; return i; } inline istream& operator>>(istream&i,unsigned char&c){ char x=0; if(i>>x) c=x; return i; } inline istream& operator>>(istream&i,signed char&c){ char x=0; if(i>>x) c=x; return i; }
inline istream& operator>>(istream&i,string&s){ if(!i._pre()) return i; s.erase(); streamsize n=i.width(),k=0; i.width(0); int c; while((c=i.rdbuf()->sgetc())!=-1){ if(c==' '||(c>=9&&c<=13)||(n>0&&k>=n)) break; s+=(char)c; k++; i.rdbuf()->sbumpc(); } if(c==-1) i.setstate(ios_base::eofbit); if(!k) i.setstate(ios_base::failbit); return i; }
inline istream& operator>>(istream&i,char*p){ string s; if(i>>s) memcpy(p,s.c_str(),s.size()+1); return i; }
inline istream& getline(istream&i,string&s,char d){ if(!i._pre(true)) return i; s.erase(); bool any=false; for(;;){ int c=i.rdbuf()->sbumpc(); if(c==-1){ i.setstate(any?ios_base::eofbit:ios_base::eofbit|ios_base::failbit); break; } any=true; if((char)c==d) break; s+=(char)c; } return i; }
inline istream& getline(istream&i,string&s){ return getline(i,s,'\n'); } inline istream& getline(istream&&i,string&s){ return getline(i,s,'\n'); } inline istream& ws(istream&i){ int c; while((c=i.rdbuf()->sgetc())!=-1&&(c==' '||(c>=9&&c<=13))) i.rdbuf()->sbumpc(); if(c==-1) i.setstate(ios_base::eofbit); return i; }
// rvalue streams
template<class S,class T> inline typename enable_if<!is_lvalue_reference<S>::value&&is_base_of<basic_istream<char>,S>::value,S&&>::type operator>>(S&&i,T&&v){ static_cast<basic_istream<char>&>(i)>>std::forward<T>(v); return std::move(i); }
template<class S,class T> inline typename enable_if<!is_lvalue_reference<S>::value&&is_base_of<basic_ostream<char>,S>::value,S&&>::type operator<<(S&&o,const T&v){ static_cast<basic_ostream<char>&>(o)<<v; return std::move(o); }
template<> class basic_iostream<char,char_traits<char>> : public basic_istream<char>, public basic_ostream<char> { public: explicit basic_iostream(basic_streambuf<char>*b){ init(b); } protected: basic_iostream(){} };
template<> class basic_stringbuf<char,char_traits<char>,allocator<char>> : public basic_streambuf<char> { public: explicit basic_stringbuf(ios_base::openmode=ios_base::in|ios_base::out){} explicit basic_stringbuf(const string&s,ios_base::openmode=ios_base::in|ios_base::out){ _b=s; } string str()const{ return _b; } void str(const string&s){ _b=s; _g=0; } };
template<> class basic_ostringstream<char,char_traits<char>,allocator<char>> : public basic_ostream<char> { basic_stringbuf<char> _buf; public: explicit basic_ostringstream(ios_base::openmode=ios_base::out){ init(&_buf); } explicit basic_ostringstream(const string&s,ios_base::openmode m=ios_base::out){ init(&_buf); _ow=s; if(m&ios_base::ate) _buf.str(s); else _buf.str(""); _has=!(m&ios_base::ate); } string _ow; bool _has=false;
  basic_ostringstream(basic_ostringstream&&o){ init(&_buf); _buf.str(o.str()); copyfmt(o); } 
  string str()const{ string r=_buf.str(); if(_has&&r.size()<_ow.size()) r+=_ow.substr(r.size()); return r; } void str(const string&s){ _buf.str(""); _ow=s; _has=true; } basic_stringbuf<char>*rdbuf()const{ return const_cast<basic_stringbuf<char>*>(&_buf); } };
template<> class basic_istringstream<char,char_traits<char>,allocator<char>> : public basic_istream<char> { basic_stringbuf<char> _buf; public: explicit basic_istringstream(ios_base::openmode=ios_base::in){ init(&_buf); } explicit basic_istringstream(const string&s,ios_base::openmode=ios_base::in){ init(&_buf); _buf.str(s); } basic_istringstream(basic_istringstream&&o){ init(&_buf); _buf._b=o._buf._b; _buf._g=o._buf._g; } string str()const{ return _buf.str(); } void str(const string&s){ _buf.str(s); } basic_stringbuf<char>*rdbuf()const{ return const_cast<basic_stringbuf<char>*>(&_buf); } };
template<> class basic_stringstream<char,char_traits<char>,allocator<char>> : public basic_iostream<char> { basic_stringbuf<char> _buf; public: explicit basic_stringstream(ios_base::openmode=ios_base::in|ios_base::out){ init(&_buf); } explicit basic_stringstream(const string&s,ios_base::openmode=ios_base::in|ios_base::out){ init(&_buf); _buf.str(s); } basic_stringstream(basic_stringstream&&o){ init(&_buf); _buf._b=o._buf._b; _buf._g=o._buf._g; } string str()const{ return _buf.str(); } void str(const string&s){ _buf.str(s); } basic_stringbuf<char>*rdbuf()const{ return const_cast<basic_stringbuf<char>*>(&_buf); } };
template<> class basic_filebuf<char,char_traits<char>> : public basic_streambuf<char> { public: basic_filebuf():basic_streambuf<char>(3){} ~basic_filebuf(){ close(); } bool is_open()const{ return _fd>=0; } basic_filebuf*open(const char*n,ios_base::openmode m){ if(_fd>=0) return nullptr; _fd=__sx_fopen(n,m); if(_fd<0) return nullptr; _b.clear(); _g=0; if(m&ios_base::in) _fill(); return this; } basic_filebuf*close(){ if(_fd<0) return nullptr; __sx_fclose(_fd); _fd=-1; return this; } };
#define SX_FS(NAME,BASE,DEF) template<> class NAME<char,char_traits<char>> : public BASE<char> { basic_filebuf<char> _buf; public: NAME(){ init(&_buf); } explicit NAME(const char*n,ios_base::openmode m=DEF){ init(&_buf); open(n,m); } explicit NAME(const string&n,ios_base::openmode m=DEF){ init(&_buf); open(n.c_str(),m); } void open(const char*n,ios_base::openmode m=DEF){ if(!_buf.open(n,m|DEF)) setstate(failbit); else clear(); } void open(const string&n,ios_base::openmode m=DEF){ open(n.c_str(),m); } bool is_open()const{ return _buf.is_open(); } void close(){ if(!_buf.close()) setstate(failbit); } basic_filebuf<char>*rdbuf()const{ return const_cast<basic_filebuf<char>*>(&_buf); } };
SX_FS(basic_ifstream,basic_istream,ios_base::in) SX_FS(basic_ofstream,basic_ostream,ios_base::out)
template<> class basic_fstream<char,char_traits<char>> : public basic_iostream<char> { basic_filebuf<char> _buf; public: basic_fstream(){ init(&_buf); } explicit basic_fstream(const char*n,ios_base::openmode m=ios_base::in|ios_base::out){ init(&_buf); open(n,m); } void open(const char*n,ios_base::openmode m=ios_base::in|ios_base::out){ if(!_buf.open(n,m)) setstate(failbit); else clear(); } bool is_open()const{ return _buf.is_open(); } void close(){ if(!_buf.close()) setstate(failbit); } };
#undef SX_FS
extern ostream cout,cerr,clog; extern istream cin;
struct _SxSetw{ int n; }; struct _SxSetp{ int n; }; struct _SxSetf{ char c; }; struct _SxSetb{ int b; };
inline _SxSetw setw(int n){ return {n}; } inline _SxSetp setprecision(int n){ return {n}; } inline _SxSetf setfill(char c){ return {c}; } inline _SxSetb setbase(int b){ return {b}; }
inline ostream& operator<<(ostream&o,_SxSetw s){ o.width(s.n); return o; } inline ostream& operator<<(ostream&o,_SxSetp s){ o.precision(s.n); return o; } inline ostream& operator<<(ostream&o,_SxSetf s){ o.fill(s.c); return o; } inline ostream& operator<<(ostream&o,_SxSetb s){ o.setf(s.b==16?ios_base::hex:s.b==8?ios_base::oct:s.b==10?ios_base::dec:0,ios_base::basefield); return o; }
inline istream& operator>>(istream&i,_SxSetw s){ i.width(s.n); return i; } inline istream& operator>>(istream&i,_SxSetb s){ i.setf(s.b==16?ios_base::hex:s.b==8?ios_base::oct:s.b==10?ios_base::dec:0,ios_base::basefield); return i; }
}
