/*SPEC
NATIVE='bc'
BOUNDS='texts host:port with host and port parts of up to 4 arbitrary bytes each and with ports of 5 and 6 digits; every IPv4 address returned; two threads resolving at once; messages of 0 to 65508 bytes and datagrams of 0 to 65507 (boundary lengths; contents of the first 64 bytes arbitrary); timeouts of 0 to 4294967295 ms and any arrival time; local and remote paths of 0 to 1100 characters; any descriptor number; sequences of up to 4 opens, closes and a destruction, with any of the system calls failing'
OUTSIDE='ports written other than as plain decimal digits (only memory safety is checked); hosts resolved by an actual name service; the ordering of datagrams; a descriptor closed by other code; the configuration with gethostbyname2_r'
ASSUMES=['the system calls behave as in symx/models/env_sock.c']
STUBS='sockets, gethostbyname: symx/models/env_sock.c'
for h in range(0,4):
  for d in range(0,4): case('resolve.%d.%d'%(h,d),h=h,d=d,reach=['ok'] if d else [],time=300,f='resolve')
case('resolve.0.5',h=0,d=5,reach=['ok','big'],time=500,f='resolve'); case('resolve.1.6',h=1,d=6,reach=['big'],time=500,f='resolve')
case('resolve.4.4',h=4,d=4,reach=['ok'],time=500,f='resolve')
case('quads',reach=['ok'],time=400); case('byport',reach=['ok'],time=300); case('family',reach=['done'],time=200)
case('threads',reach=['done'],time=400,conc=True)
case('sending',reach=['sent','refused'],time=500); case('cstring',reach=['done'],time=300); case('sendto',reach=['sent'],time=300)
case('reading',reach=['done'],time=500); case('reply',reach=['done'],time=500); case('timed',reach=['got','timeout'],time=500); case('timederr',reach=['error'],time=300); case('high',reach=['got','timeout'],time=300)
case('blocking',reach=['done'],time=300); case('port',reach=['done'],time=300)
for n in (1,2,3,4): case('life.%d'%n,n=n,reach=['done'],time=500,f='life')
case('udplife',reach=['ok','threw'],time=300)
case('uddlocal',reach=['ok','refused'],time=300); case('uddremote',reach=['ok','refused'],time=300); case('uddlife',reach=['done'],time=300); case('uddread',reach=['done'],time=300)
*/
#include "symx.h"
#include "env.h"
#include "Sockets.h"
#include "Configuration.h"
#include "Threads.h"
#include <string.h>
#include <stdlib.h>
#include <string>
ConfigurationTable gConfig;
static unsigned char gAddr[4]; static int anyhost(const char*n,unsigned char o[16]){ memcpy(o,gAddr,4); return 4; } static void anyAddr(){ sym_bytes(gAddr,4,"address"); env_host_hook=anyhost; }
static void is(const struct sockaddr_in&a,const unsigned char*ip,unsigned port){ SYM_ASSERT(a.sin_family==AF_INET,"an IPv4 address"); SYM_ASSERT(!memcmp(&a.sin_addr,ip,4),"the address of the host"); SYM_ASSERT(a.sin_port==(uint16_t)((port>>8)|(port<<8)),"the port in network order"); }
static void resolve(){ int h=sym_param("h",1),d=sym_param("d",1); char t[12]; sym_bytes(t,h,"host"); for(int i=0;i<h;i++) SYM_ASSUME(t[i]!=0&&t[i]!=':'); bool colon=h+d>4||sym_choice(8,"colon"); int n=h; if(colon) t[n++]=':'; sym_bytes(t+n,d,"port"); bool digits=d>0; if(d>=5) for(int i=0;i<d;i++) SYM_ASSUME(t[n+i]>='0'&&t[n+i]<='9'); for(int i=0;i<d;i++){ SYM_ASSUME(t[n+i]!=0); if(!colon) SYM_ASSUME(t[n+i]!=':'); digits=(bool)__sx_ite(digits&(t[n+i]>='0')&(t[n+i]<='9'),1,0); } unsigned port=0; for(int i=0;i<d;i++) port=port*10+(t[n+i]-'0'); t[n+d]=0; std::string copy(t);
	anyAddr(); struct sockaddr_in a; memset(&a,0,sizeof a); int64_t lb=0; { char w[]="warm"; resolveAddress(&a,w); lb=sym_live_blocks(); resolveAddress(&a,"0:0"); lb=sym_live_blocks(); } env_host_n=0; bool r=resolveAddress(&a,t); SYM_ASSERT(copy==t,"the text is left alone");
	SYM_ASSERT(sym_live_blocks()==lb,"resolving keeps no memory"); if(!colon){ SYM_ASSERT(!r,"a missing port fails"); return; } if(digits){ if(port<=65535){ SYM_ASSERT(r,"resolves"); is(a,gAddr,port); SYM_ASSERT(env_host_n==1&&!strcmp(env_host_asked,copy.substr(0,h).c_str()),"the host asked for"); sym_reach("ok"); } else { SYM_ASSERT(!r,"a port above 65535 fails"); sym_reach("big"); } } }
static void quads(){ static const struct{ const char*t; int ok; unsigned char ip[4]; unsigned p; } Q[]={{"127.0.0.1:5060",1,{127,0,0,1},5060},{"10.20.30.40:1",1,{10,20,30,40},1},{"255.255.255.255:65535",1,{255,255,255,255},65535},{"0.0.0.0:0",1,{0,0,0,0},0},{"nowhere:5",0,{},0},{"1.2.3.4.5:5",0,{},0},{"256.1.1.1:5",0,{},0},{"127.0.0.1:65536",0,{},0},{"127.0.0.1",0,{},0},{"127.0.0.1:4294967297",0,{},0},{"127.0.0.1:18446744073709551617",0,{},0},{"127.0.0.1:-1",0,{},0}}; int w=sym_choice(12,"text"); struct sockaddr_in a; bool r=resolveAddress(&a,Q[w].t); SYM_ASSERT(r==(bool)Q[w].ok,"whether it resolves"); if(r){ is(a,Q[w].ip,Q[w].p); sym_reach("ok"); } }
static void byport(){ anyAddr(); unsigned short p=sym<uint16_t>("port"); struct sockaddr_in a; SYM_ASSERT(resolveAddress(&a,"some.host",p),"resolves"); is(a,gAddr,p); SYM_ASSERT(!strcmp(env_host_asked,"some.host"),"the host asked for"); sym_reach("ok"); }
static int v6(const char*,unsigned char o[16]){ sym_bytes(o,16,"v6"); return 16; } static int none(const char*,unsigned char*){ return 0; }
static void family(){ env_host_hook=sym_choice(2,"what")?v6:none; struct sockaddr_in a; SYM_ASSERT(!resolveAddress(&a,"h:5"),"only IPv4 hosts resolve"); SYM_ASSERT(!resolveAddress(&a,"h",5),"only IPv4 hosts resolve"); sym_reach("done"); }
static struct sockaddr_in gR; static bool gOk; static void*other(void*){ gOk=resolveAddress(&gR,"1.2.3.4:99"); return 0; }
static void threads(){ env_preempt=3; struct sockaddr_in a; Thread t; t.start(other,0); bool r=resolveAddress(&a,"250.251.252.253:77"); t.join(); SYM_ASSERT(r&&gOk,"both resolve"); static const unsigned char A[4]={250,251,252,253},B[4]={1,2,3,4}; is(a,A,77); is(gR,B,99); sym_reach("done"); }
static const int L[]={0,1,2,63,1499,1500,1501,9000,65507,65508}; static char*msg(int n){ char*m=(char*)malloc(n?n:1); memset(m,'z',n?n:1); sym_bytes(m,n<64?n:64,"data"); return m; }
static void sentIs(const char*m,int n,const unsigned char*ip,unsigned port){ SYM_ASSERT(env_sk_nsent==1&&env_sk_sent[0].n==(unsigned)n,"one datagram of that length"); SYM_ASSERT(!memcmp(env_sk_sent[0].d,m,n<64?n:64),"its contents"); struct sockaddr_in a; memcpy(&a,env_sk_sent[0].to,sizeof a); is(a,ip,port); SYM_ASSERT(env_sk_sent[0].tolen==sizeof a,"address length"); }
static int gOp=-1,gErr; static int failOp(int op){ return op==gOp?gErr:0; }
static void sending(){ anyAddr(); unsigned short p=sym<uint16_t>("port"); UDPSocket s(0,"peer",p); int n=L[sym_choice(10,"len")]; char*m=msg(n); env_sk_hook=failOp; gOp=sym_choice(2,"fails")?2:-1; gErr=111; int r=s.write(m,n); if(gOp==2||n>65507){ SYM_ASSERT(r==-1&&!env_sk_nsent,"the failure is reported"); sym_reach("refused"); } else { SYM_ASSERT(r==n,"the length sent"); sentIs(m,n,gAddr,p); sym_reach("sent"); } }
static void cstring(){ anyAddr(); UDPSocket s(7,"peer",8); int n=sym_choice(5,"len"); char*m=(char*)malloc(n+1); sym_bytes(m,n,"text"); for(int i=0;i<n;i++) SYM_ASSUME(m[i]!=0); m[n]=0; int r; struct sockaddr_in d; resolveAddress(&d,"x",8); if(sym_choice(2,"how")) r=s.write(m); else r=s.send((struct sockaddr*)&d,m); SYM_ASSERT(r==n+1,"with its terminator"); sentIs(m,n+1,gAddr,8); sym_reach("done"); }
static void sendto(){ anyAddr(); UDPSocket s(0,"9.9.9.9",9); unsigned char first[4]; memcpy(first,gAddr,4); sym_bytes(gAddr,4,"other"); struct sockaddr_in d; unsigned short p=sym<uint16_t>("p2"); resolveAddress(&d,"x",p); int n=L[sym_choice(10,"len")]; char*m=msg(n); int r=s.send((struct sockaddr*)&d,m,n); if(n>65507) SYM_ASSERT(r==-1,"too long"); else { SYM_ASSERT(r==n,"sent"); sentIs(m,n,gAddr,p); env_sk_nsent=0; SYM_ASSERT(s.write(m,n)==n,"sent"); sentIs(m,n,first,9); sym_reach("sent"); } }
static char gD[65507]; static struct sockaddr_in gFrom; static void arrive(long n,int64_t at){ memset(gD,'q',sizeof gD); sym_bytes(gD,64,"datagram"); gFrom.sin_family=AF_INET; sym_bytes(&gFrom.sin_addr,4,"from"); gFrom.sin_port=sym<uint16_t>("fport"); env_sk_push(gD,n,&gFrom,sizeof gFrom,at); }
static void gotIs(const UDPSocket&s,const char*b,int r,int n){ int k=n<MAX_UDP_LENGTH?n:MAX_UDP_LENGTH; SYM_ASSERT(r==k,"the length received"); SYM_ASSERT(!memcmp(b,gD,k<64?k:64),"the data received"); if(k>64) SYM_ASSERT(b[k-1]=='q',"the data received"); const struct sockaddr_in*a=s.source(); SYM_ASSERT(a->sin_family==AF_INET&&a->sin_addr.s_addr==gFrom.sin_addr.s_addr&&a->sin_port==gFrom.sin_port,"the address it came from"); }
static const int RL[]={0,1,2,63,1499,1500,1501,9000,65507};
static void reading(){ UDPSocket s(5); SYM_ASSERT(s.source()->sin_port==0&&s.source()->sin_addr.s_addr==0,"no source yet"); int n=RL[sym_choice(9,"len")]; char*b=(char*)malloc(MAX_UDP_LENGTH); arrive(n,env_now_us+sym_choice(2,"later")*1000000); int r=s.read(b); gotIs(s,b,r,n); free(b); sym_reach("done"); }
static void reply(){ anyAddr(); UDPSocket s(5,"elsewhere",1); char*b=(char*)malloc(MAX_UDP_LENGTH); arrive(3,0); s.read(b); int n=L[sym_choice(9,"len")]; char*m=msg(n); if(sym_choice(2,"text")){ int r=s.writeBack("ab"); SYM_ASSERT(r==3,"sent"); sentIs("ab",3,(unsigned char*)&gFrom.sin_addr,__builtin_bswap16(gFrom.sin_port)); } else { int r=s.writeBack(m,n); SYM_ASSERT(r==n,"sent"); sentIs(m,n,(unsigned char*)&gFrom.sin_addr,__builtin_bswap16(gFrom.sin_port)); } sym_reach("done"); }
static void timedOn(UDPSocket&s){ static const unsigned TO[]={0,1,10,999,1000,1001,60000,2147483,4294967,2147483647u,2147483648u,4294967295u}; unsigned to=TO[sym_choice(12,"timeout")]; int64_t d=(int64_t)sym_range(0,4294968000ll*1000,"arrival"); char*b=(char*)malloc(MAX_UDP_LENGTH); int64_t t0=env_now_us; arrive(5,t0+d); int r=s.read(b,to); int64_t el=env_now_us-t0,lim=(int64_t)to*1000; if(to>2147483647u) lim=2147483647ll*1000; if(r==-1){ SYM_ASSERT(d>lim,"times out only when nothing arrived in time"); SYM_ASSERT(el>=lim&&el<=(int64_t)to*1000+1000,"waits as long as asked"); sym_reach("timeout"); } else { gotIs(s,b,r,5); SYM_ASSERT(el==d&&d<=(int64_t)to*1000+1000,"returns when it arrives"); sym_reach("got"); } free(b); }
static void timed(){ UDPSocket s(5); if(sym_choice(2,"nonblocking")) s.nonblocking(); timedOn(s); }
static void timederr(){ UDPSocket s(5); env_sk_hook=failOp; gOp=3+sym_choice(2,"op"); gErr=sym_choice(2,"err")?4:9; arrive(5,0); char*b=(char*)malloc(MAX_UDP_LENGTH); bool threw=false; try{ if(gOp==3&&sym_choice(2,"plain")) s.read(b); else s.read(b,100); }catch(SocketError&){ threw=true; } SYM_ASSERT(threw,"a failing receive is reported"); sym_reach("error"); }
static void high(){ static const int B[]={63,1016,1023,1024,1025,4096,65535,1000000,2147483000}; env_sk_base=B[sym_choice(9,"fd")]; UDPSocket s(5); timedOn(s); }
static void blocking(){ UDPSocket s(5); char*b=(char*)malloc(MAX_UDP_LENGTH); s.nonblocking(); SYM_ASSERT(s.read(b)==-1,"nothing to read"); arrive(9,env_now_us+5000000); SYM_ASSERT(s.read(b)==-1,"nothing to read yet"); if(sym_choice(2,"again")){ s.blocking(); int64_t t=env_now_us; SYM_ASSERT(s.read(b)==9&&env_now_us==t+5000000,"waits"); } else { env_now_us+=5000000; SYM_ASSERT(s.read(b)==9,"reads"); } sym_reach("done"); }
static void port(){ unsigned short p=sym<uint16_t>("port"); UDPSocket s(p); struct sockaddr_in a; SYM_ASSERT(env_sk_bound(3,&a,sizeof a)==sizeof a&&a.sin_family==AF_INET&&a.sin_addr.s_addr==0,"bound to any address"); unsigned want=p?p:env_sk_port; SYM_ASSERT(__builtin_bswap16(a.sin_port)==want,"bound to the port"); SYM_ASSERT(s.port()==want,"the port in use"); env_sk_hook=failOp; gOp=5; gErr=9; bool t=false; try{ s.port(); }catch(SocketError&){ t=true; } SYM_ASSERT(t,"no port without a socket"); sym_reach("done"); }
static int gLeft; static int anyFail(int op){ if(op<=1&&gLeft>0&&sym_choice(2,"fail")){ gLeft--; return 98; } return 0; }
static void closedAll(){ SYM_ASSERT(!env_sk_badclose,"no descriptor is closed that is not open"); SYM_ASSERT(!env_sk_live()&&env_sk_opened==env_sk_closed,"every socket opened is closed once"); }
static void life(){ int n=sym_param("n",2); { UDPSocket s(1); env_sk_hook=anyFail; gLeft=2; for(int i=0;i<n;i++){ bool th=false; int o=sym_choice(3,"op"); try{ if(o==0) s.close(); else s.open(o==1?7:0); }catch(SocketError&){ th=true; } if(o==0) SYM_ASSERT(env_sk_live()==0,"closed"); else if(!th) SYM_ASSERT(env_sk_live()==1,"one descriptor"); else SYM_ASSERT(env_sk_live()<=1,"at most one descriptor"); } } closedAll(); sym_reach("done"); }
static void udplife(){ env_sk_hook=anyFail; gLeft=2; try{ UDPSocket s(0,"1.2.3.4",5); sym_reach("ok"); }catch(SocketError&){ sym_reach("threw"); } closedAll(); }
static const int PL[]={0,1,50,106,107,108,109,200,253,254,255,256,300,1100}; static char*path(){ int n=PL[sym_choice(14,"len")]; char*p=(char*)malloc(n+1); memset(p,'p',n); sym_bytes(p,n<3?n:3,"path"); for(int i=0;i<n&&i<3;i++) SYM_ASSUME(p[i]!=0); p[n]=0; return p; }
static void uddlocal(){ char*p=path(); unsigned n=strlen(p); bool threw=false; try{ UDDSocket s(p,0); struct sockaddr_un a; SYM_ASSERT(env_sk_bound(3,&a,sizeof a)>=3+0&&a.sun_family==AF_UNIX,"bound"); SYM_ASSERT(n<sizeof a.sun_path&&!strcmp(a.sun_path,p),"bound to the path"); sym_reach("ok"); }catch(SocketError&){ threw=true; sym_reach("refused"); } SYM_ASSERT(threw==(n>=108),"exactly the paths that fit are accepted"); closedAll(); }
static void uddremote(){ char*p=path(); unsigned n=strlen(p); bool threw=false; try{ UDDSocket s("me",p); SYM_ASSERT(s.write("hi",2)==2,"sent"); struct sockaddr_un a; memcpy(&a,env_sk_sent[0].to,sizeof a); SYM_ASSERT(a.sun_family==AF_UNIX&&n<sizeof a.sun_path&&!strcmp(a.sun_path,p),"sent to the path"); SYM_ASSERT(env_sk_sent[0].n==2&&!memcmp(env_sk_sent[0].d,"hi",2),"contents"); sym_reach("ok"); }catch(SocketError&){ threw=true; sym_reach("refused"); } SYM_ASSERT(threw==(n>=108),"exactly the paths that fit are accepted"); closedAll(); }
static void uddlife(){ env_sk_hook=anyFail; gLeft=2; try{ UDDSocket s; if(sym_choice(2,"first")) s.close(); for(int i=0;i<2;i++) try{ s.open(i?"b":"a"); SYM_ASSERT(env_sk_live()==1,"one descriptor"); struct sockaddr_un a; SYM_ASSERT(env_sk_bound(env_sk_base,&a,sizeof a)>0&&!strcmp(a.sun_path,i?"b":"a"),"bound"); }catch(SocketError&){} if(sym_choice(2,"last")) s.close(); }catch(SocketError&){} closedAll(); sym_reach("done"); }
static void uddread(){ UDDSocket s("me"); struct sockaddr_un f; memset(&f,'f',sizeof f); f.sun_family=AF_UNIX; f.sun_path[107]=0; static const int FL[]={2,3,50,110}; int fl=FL[sym_choice(4,"from")]; char*b=(char*)malloc(MAX_UDP_LENGTH); memset(gD,'q',sizeof gD); sym_bytes(gD,64,"datagram"); int n=RL[sym_choice(9,"len")]; env_sk_push(gD,n,&f,fl,0); int r=s.read(b); int k=n<MAX_UDP_LENGTH?n:MAX_UDP_LENGTH; SYM_ASSERT(r==k&&!memcmp(b,gD,k<64?k:64),"received"); SYM_ASSERT(s.source()->sun_family==AF_UNIX&&!memcmp(s.source()->sun_path,f.sun_path,fl-2),"where it came from"); sym_reach("done"); }
extern "C" void harness_main(void){ H(resolve) H(quads) H(byport) H(family) H(threads) H(sending) H(cstring) H(sendto) H(reading) H(reply) H(timed) H(timederr) H(high) H(blocking) H(port) H(life) H(udplife) H(uddlocal) H(uddremote) H(uddlife) H(uddread) sym_fail("unknown case"); }
