// Sockets, descriptors and host names: a table of descriptors, a queue of datagrams that arrive at set times, failures injected by the harness.
#include "env.h"
#include <string.h>
#include <errno.h>
#include <stdlib.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <poll.h>
#include <sys/select.h>
#include <sys/time.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
extern void sym_fail(const char*);
int env_sk_opened,env_sk_closed,env_sk_badclose,env_sk_base=3; int (*env_sk_hook)(int op);
struct env_sent env_sk_sent[4]; int env_sk_nsent; static struct { int open,dom,nb,bound,reuse; unsigned char addr[128]; int alen; } T[8];
static struct { const char*d; long n; unsigned char from[128]; int flen; int64_t at; } Q[8]; static int qh,qt; unsigned short env_sk_port=40000;
int env_sk_live(void){ int c=0; for(int i=0;i<8;i++) c+=T[i].open; return c; }
static int slot(int fd){ int i=fd-env_sk_base; return i>=0&&i<8&&T[i].open?i:-1; }
static int bad(int fd,int op){ if(slot(fd)<0){ errno=EBADF; return 1; } int e=env_sk_hook?env_sk_hook(op):0; if(e){ errno=e; return 1; } return 0; }
int env_sk_bound(int fd,void*a,int cap){ int i=slot(fd); if(i<0||!T[i].bound) return -1; memcpy(a,T[i].addr,T[i].alen<cap?T[i].alen:cap); return T[i].alen; }
int env_sk_nb(int fd){ int i=slot(fd); return i>=0&&T[i].nb; }
void env_sk_push(const char*d,long n,const void*from,int flen,int64_t at){ Q[qt].d=d; Q[qt].n=n; memcpy(Q[qt].from,from,flen); Q[qt].flen=flen; Q[qt].at=at; qt++; }
int socket(int dom,int type,int proto){ int e=env_sk_hook?env_sk_hook(0):0; if(e){ errno=e; return -1; } if((dom!=AF_INET&&dom!=AF_UNIX)||(type&15)!=SOCK_DGRAM){ errno=EINVAL; return -1; } for(int i=0;i<8;i++) if(!T[i].open){ memset(&T[i],0,sizeof T[i]); T[i].open=1; T[i].dom=dom; T[i].nb=(type&SOCK_NONBLOCK)!=0; env_sk_opened++; return env_sk_base+i; } errno=EMFILE; return -1; }
int close(int fd){ int i=slot(fd); if(i<0){ if(fd>=0) env_sk_badclose++; errno=EBADF; return -1; } T[i].open=0; env_sk_closed++; return 0; }
int bind(int fd,const struct sockaddr*a,socklen_t n){ if(bad(fd,1)) return -1; int i=slot(fd); if(n>128||n<2||a->sa_family!=T[i].dom||T[i].bound){ errno=EINVAL; return -1; } memcpy(T[i].addr,a,n); T[i].alen=n; T[i].bound=1; if(T[i].dom==AF_INET){ struct sockaddr_in*s=(void*)T[i].addr; if(!s->sin_port) s->sin_port=__builtin_bswap16(env_sk_port); } return 0; }
int setsockopt(int fd,int l,int o,const void*v,socklen_t n){ if(bad(fd,6)) return -1; if(o==SO_REUSEADDR&&n>=4) T[slot(fd)].reuse=*(const int*)v; return 0; }
int getsockname(int fd,struct sockaddr*a,socklen_t*n){ if(bad(fd,5)) return -1; int i=slot(fd); unsigned k=T[i].bound?T[i].alen:16; memcpy(a,T[i].addr,k<*n?k:*n); *n=k; return 0; }
int fcntl(int fd,int c,...){ va_list ap; va_start(ap,c); int v=va_arg(ap,int); va_end(ap); if(bad(fd,7)) return -1; int i=slot(fd); if(c==F_GETFL) return O_RDWR|(T[i].nb?O_NONBLOCK:0); if(c==F_SETFL) T[i].nb=(v&O_NONBLOCK)!=0; return 0; }
int ioctl(int fd,unsigned long c,...){ va_list ap; va_start(ap,c); int*v=va_arg(ap,int*); va_end(ap); if(bad(fd,7)) return -1; if(c==0x5421) T[slot(fd)].nb=*v!=0; return 0; }
long sendto(int fd,const void*b,unsigned long n,int fl,const struct sockaddr*a,socklen_t al){ if(bad(fd,2)) return -1; int i=slot(fd); struct env_sent*s=&env_sk_sent[env_sk_nsent&3]; unsigned char to[128]; if(al>128){ errno=EINVAL; return -1; } memset(to,0,128); if(a) memcpy(to,a,al);
  if(n>65507){ errno=EMSGSIZE; return -1; } unsigned char x=0; if(n>sizeof s->d){ x=*(const volatile unsigned char*)((const char*)b+n-1); } (void)x; if(!a||((const struct sockaddr*)to)->sa_family!=T[i].dom){ errno=a?EAFNOSUPPORT:ENOTCONN; return -1; } s->fd=fd; s->n=n; memcpy(s->d,b,n<sizeof s->d?n:sizeof s->d); memcpy(s->to,to,128); s->tolen=al; env_sk_nsent++; return n; }
long send(int fd,const void*b,unsigned long n,int fl){ return sendto(fd,b,n,fl,0,0); }
long recvfrom(int fd,void*b,unsigned long n,int fl,struct sockaddr*a,socklen_t*al){ if(bad(fd,3)) return -1; int i=slot(fd); if(qh==qt||Q[qh].at>env_now_us){ if(T[i].nb||(fl&MSG_DONTWAIT)){ errno=EAGAIN; return -1; } if(qh==qt) sym_fail("waiting for a datagram forever"); env_now_us=Q[qh].at; }
  long k=Q[qh].n<(long)n?Q[qh].n:(long)n; memcpy(b,Q[qh].d,k); if(a&&al){ unsigned m=Q[qh].flen; memcpy(a,Q[qh].from,m<*al?m:*al); *al=m; } long r=(fl&MSG_TRUNC)?Q[qh].n:k; qh++; return r; }
long recv(int fd,void*b,unsigned long n,int fl){ return recvfrom(fd,b,n,fl,0,0); }
static int await(int64_t us){ if(qh<qt&&Q[qh].at<=env_now_us) return 1; if(qh<qt&&(us<0||Q[qh].at<=env_now_us+us)){ env_now_us=Q[qh].at; return 1; } if(us<0) sym_fail("waiting for a datagram forever"); env_now_us+=us; return 0; }
int poll(struct pollfd*p,nfds_t n,int ms){ int e=env_sk_hook?env_sk_hook(4):0; if(e){ errno=e; return -1; } if(n!=1) sym_fail("poll of one descriptor expected"); if(p->fd<0){ p->revents=0; if(ms<0) sym_fail("waiting forever"); env_now_us+=(int64_t)ms*1000; return 0; } if(slot(p->fd)<0){ p->revents=POLLNVAL; return 1; } p->revents=0; if(!(p->events&POLLIN)){ env_now_us+=(int64_t)ms*1000; return 0; } int r=await(ms<0?-1:(int64_t)ms*1000); p->revents=r?POLLIN:0; return r; }
int select(int nfd,fd_set*r,fd_set*w,fd_set*x,struct timeval*tv){ int e=env_sk_hook?env_sk_hook(4):0; if(e){ errno=e; return -1; } if(tv&&(tv->tv_usec<0||tv->tv_usec>=1000000||tv->tv_sec<0)){ errno=EINVAL; return -1; } int fd=-1; for(int i=0;i<nfd;i++) if(r&&FD_ISSET(i,r)) fd=i; if(fd>=0&&slot(fd)<0){ errno=EBADF; return -1; } int k; if(fd<0){ if(!tv) sym_fail("waiting forever"); env_now_us+=(int64_t)tv->tv_sec*1000000+tv->tv_usec; k=0; } else k=await(tv?(int64_t)tv->tv_sec*1000000+tv->tv_usec:-1); if(!k&&fd>=0) FD_CLR(fd,r); return k; }
// host names: dotted quads, and what the harness defines
char env_host_asked[64]; int env_host_n; int (*env_host_hook)(const char*name,unsigned char out[16]); static int herr; int*__h_errno_location(void){ return &herr; } const char*hstrerror(int e){ return "host error"; }
static struct hostent he; static unsigned char hbuf[16]; static char*hlist[2]; static char hname[64];
struct hostent*gethostbyname(const char*n){ env_host_n++; unsigned long k=strlen(n); if(k>63) k=63; memcpy(env_host_asked,n,k); env_host_asked[k]=0; memset(hbuf,0xee,16); int len=0; if(env_host_hook) len=env_host_hook(n,hbuf); else { struct in_addr a; if(inet_aton(n,&a)){ memcpy(hbuf,&a,4); len=4; } } herr=len?0:1; if(!len){ env_yield(); return 0; } memcpy(hname,env_host_asked,k+1); he.h_name=hname; he.h_aliases=&hlist[1]; he.h_addrtype=len==16?AF_INET6:AF_INET; he.h_length=len; hlist[0]=(char*)hbuf; he.h_addr_list=hlist; env_yield(); return &he; }
