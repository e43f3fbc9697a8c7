// Models of the C library functions used by the code under test; plain C executed symbolically (no tables, few branches).
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <limits.h>
#include <errno.h>
typedef struct _sx_FILE FILE_; struct _IO_FILE; 
extern uint64_t sym_concretize(uint64_t); extern int __sx_is_symbolic(uint64_t); extern int __sx_mem_symbolic(const void*,unsigned long); extern int __sx_fmt_double(char*,unsigned long,const char*,double);
void*malloc(unsigned long); void free(void*); unsigned long strlen(const char*); void*memcpy(void*,const void*,unsigned long); void*memset(void*,int,unsigned long); int strncmp(const char*,const char*,unsigned long); int strcmp(const char*,const char*); int strcasecmp(const char*,const char*);
#define B2(x) ((x)?1:0)
int isdigit(int c){ return (unsigned)c-'0'<10; } int isupper(int c){ return (unsigned)c-'A'<26; } int islower(int c){ return (unsigned)c-'a'<26; } int isalpha(int c){ return ((unsigned)c|32)-'a'<26; }
int isalnum(int c){ return (((unsigned)c|32)-'a'<26)|((unsigned)c-'0'<10); } int isspace(int c){ return (c==' ')|((unsigned)c-9<5); } int isblank(int c){ return (c==' ')|(c=='\t'); } int iscntrl(int c){ return ((unsigned)c<32)|(c==127); } int isprint(int c){ return (unsigned)c-0x20<0x5f; } int isgraph(int c){ return (unsigned)c-0x21<0x5e; } int ispunct(int c){ return isgraph(c)&!isalnum(c); } int isxdigit(int c){ return ((unsigned)c-'0'<10)|(((unsigned)c|32)-'a'<6); } int isascii(int c){ return (unsigned)c<128; }
int toupper(int c){ return c-((((unsigned)c-'a')<26)?32:0); } int tolower(int c){ return c+((((unsigned)c-'A')<26)?32:0); }
// table access used by some headers
static unsigned short ctab[384]; static const unsigned short*ctabp; static int ltab[384],utab[384]; static const int*ltp,*utp;
const unsigned short**__ctype_b_loc(void){ if(!ctabp){ for(int i=0;i<256;i++){ int u=isupper(i),l=islower(i),a=isalpha(i),d=isdigit(i),x=isxdigit(i),s=isspace(i),p=isprint(i),g=isgraph(i),b=isblank(i),c=iscntrl(i),t=ispunct(i),n=isalnum(i); ctab[128+i]=(u?1<<8:0)|(l?1<<9:0)|(a?1<<10:0)|(d?1<<11:0)|(x?1<<12:0)|(s?1<<13:0)|(p?1<<14:0)|(g?1<<15:0)|(b?1:0)|(c?2:0)|(t?4:0)|(n?8:0); } ctabp=ctab+128; } return &ctabp; }
const int**__ctype_tolower_loc(void){ if(!ltp){ for(int i=-128;i<256;i++) ltab[128+i]=i>=0?tolower(i):i; ltp=ltab+128; } return &ltp; } const int**__ctype_toupper_loc(void){ if(!utp){ for(int i=-128;i<256;i++) utab[128+i]=i>=0?toupper(i):i; utp=utab+128; } return &utp; }
// ---- strings
char*strcpy(char*d,const char*s){ memcpy(d,s,strlen(s)+1); return d; } char*stpcpy(char*d,const char*s){ unsigned long n=strlen(s); memcpy(d,s,n+1); return d+n; }
unsigned long strnlen(const char*s,unsigned long n){ unsigned long i=0; while(i<n&&s[i]) i++; return i; }
char*strncpy(char*d,const char*s,unsigned long n){ unsigned long k=strnlen(s,n); memcpy(d,s,k); if(n>k) memset(d+k,0,n-k); return d; } char*strcat(char*d,const char*s){ strcpy(d+strlen(d),s); return d; } char*strncat(char*d,const char*s,unsigned long n){ unsigned long k=strnlen(s,n); char*e=d+strlen(d); memcpy(e,s,k); e[k]=0; return d; }
char*strdup(const char*s){ unsigned long n=strlen(s)+1; char*p=malloc(n); memcpy(p,s,n); return p; } char*strndup(const char*s,unsigned long m){ unsigned long n=strnlen(s,m); char*p=malloc(n+1); memcpy(p,s,n); p[n]=0; return p; }
// strchr of a symbolic character in a constant set: compare all positions first to avoid one fork per element
char*strchr(const char*s,int c){ for(;;s++){ if(*s==(char)c) return (char*)s; if(!*s) return 0; } } char*index(const char*s,int c){ return strchr(s,c); } char*strchrnul(const char*s,int c){ while(*s&&*s!=(char)c) s++; return (char*)s; }
char*strrchr(const char*s,int c){ const char*r=0; for(;;s++){ if(*s==(char)c) r=s; if(!*s) return (char*)r; } } char*rindex(const char*s,int c){ return strrchr(s,c); }
void*memchr(const void*p,int c,unsigned long n){ const unsigned char*s=p; for(unsigned long i=0;i<n;i++) if(s[i]==(unsigned char)c) return (void*)(s+i); return 0; } void*memrchr(const void*p,int c,unsigned long n){ const unsigned char*s=p; while(n-->0) if(s[n]==(unsigned char)c) return (void*)(s+n); return 0; }
static int inset(char c,const char*set){ int r=0; for(;*set;set++) r|=(c==*set); return r; }
char*strpbrk(const char*s,const char*a){ for(;*s;s++) if(inset(*s,a)) return (char*)s; return 0; } unsigned long strspn(const char*s,const char*a){ unsigned long i=0; while(s[i]&&inset(s[i],a)) i++; return i; } unsigned long strcspn(const char*s,const char*a){ unsigned long i=0; while(s[i]&&!inset(s[i],a)) i++; return i; }
char*strstr(const char*h,const char*n){ unsigned long k=strlen(n); if(!k) return (char*)h; for(;*h;h++) if(!strncmp(h,n,k)) return (char*)h; return 0; }
char*strsep(char**sp,const char*d){ char*s=*sp,*e; if(!s) return 0; e=s; while(*e&&!inset(*e,d)) e++; if(*e){ *e=0; *sp=e+1; } else *sp=0; return s; }
char*strtok_r(char*s,const char*d,char**sv){ if(!s) s=*sv; if(!s) return 0; s+=strspn(s,d); if(!*s){ *sv=s; return 0; } char*e=s+strcspn(s,d); if(*e){ *e=0; *sv=e+1; } else *sv=e; return s; } static char*tokp; char*strtok(char*s,const char*d){ return strtok_r(s,d,&tokp); }
void*memccpy(void*d,const void*s,int c,unsigned long n){ char*a=d; const char*b=s; for(unsigned long i=0;i<n;i++){ a[i]=b[i]; if((unsigned char)b[i]==(unsigned char)c) return a+i+1; } return 0; } void*mempcpy(void*d,const void*s,unsigned long n){ memcpy(d,s,n); return (char*)d+n; } void bzero(void*p,unsigned long n){ memset(p,0,n); } void bcopy(const void*s,void*d,unsigned long n){ __builtin_memmove(d,s,n); } void*__memcpy_chk(void*d,const void*s,unsigned long n,unsigned long m){ return memcpy(d,s,n); }
void*memmem(const void*h,unsigned long hn,const void*n,unsigned long nn){ if(nn>hn) return 0; for(unsigned long i=0;i+nn<=hn;i++){ int eq=1; for(unsigned long j=0;j<nn;j++) eq&=((const char*)h)[i+j]==((const char*)n)[j]; if(eq) return (char*)h+i; } return 0; }
int strcoll(const char*a,const char*b){ return strcmp(a,b); } char*strcasestr(const char*h,const char*n){ unsigned long k=strlen(n); for(;;h++){ unsigned long i=0; for(;i<k&&h[i]&&tolower(h[i])==tolower(n[i]);i++); if(i==k) return (char*)h; if(!*h) return 0; } }
char*strerror(int e){ static char b[24]="error"; return b; } char*strsignal(int e){ static char b[24]="signal"; return b; } int abs(int x){ return x<0?-x:x; } long labs(long x){ return x<0?-x:x; }
void qsort(void*b,unsigned long n,unsigned long w,int(*f)(const void*,const void*)){ char*a=b; char t[256]; for(unsigned long i=1;i<n;i++) for(unsigned long j=i;j>0&&f(a+(j-1)*w,a+j*w)>0;j--){ memcpy(t,a+j*w,w); memcpy(a+j*w,a+(j-1)*w,w); memcpy(a+(j-1)*w,t,w); } }
// ---- numbers
static uint64_t sx_strto(const char*s,char**end,int base,int*neg,int*any,int*ovf,int auto2){ const char*p=s; *neg=0; *any=0; *ovf=0; uint64_t v=0; while(isspace((unsigned char)*p)) p++; if(*p=='-'){ *neg=1; p++; } else if(*p=='+') p++;
  if((base==0||base==16)&&p[0]=='0'&&(p[1]|32)=='x'&&isxdigit((unsigned char)p[2])){ p+=2; base=16; } else if(auto2&&(base==0||base==2)&&p[0]=='0'&&(p[1]|32)=='b'&&(p[2]=='0'||p[2]=='1')){ p+=2; base=2; } else if(base==0) base=p[0]=='0'?8:10; base=(int)sym_concretize((unsigned)base);
  for(;;p++){ unsigned c=(unsigned char)*p,d; if(c-'0'<10) d=c-'0'; else if((c|32)-'a'<26) d=(c|32)-'a'+10; else break; if(d>=(unsigned)base) break; *any=1; if(*ovf||v>(~0ull-d)/(unsigned)base){ if(v>~0ull/(unsigned)base||*ovf) *ovf=1; else { uint64_t m=v*(unsigned)base; if(m>~0ull-d) *ovf=1; else v=m+d; } } else v=v*(unsigned)base+d; }
  if(end) *end=(char*)(*any?p:s); return v; }
static long sx_strtol(const char*s,char**e,int b,int a2){ int n,any,o; uint64_t v=sx_strto(s,e,b,&n,&any,&o,a2); if(o||v>(n?(uint64_t)1<<63:(uint64_t)LONG_MAX)){ errno=ERANGE; return n?LONG_MIN:LONG_MAX; } return n?(long)(0-v):(long)v; }
static unsigned long sx_strtoul(const char*s,char**e,int b,int a2){ int n,any,o; uint64_t v=sx_strto(s,e,b,&n,&any,&o,a2); if(o){ errno=ERANGE; return ULONG_MAX; } return n?0-v:v; }
long strtol(const char*s,char**e,int b){ return sx_strtol(s,e,b,0); } long long strtoll(const char*s,char**e,int b){ return sx_strtol(s,e,b,0); } unsigned long strtoul(const char*s,char**e,int b){ return sx_strtoul(s,e,b,0); } unsigned long long strtoull(const char*s,char**e,int b){ return sx_strtoul(s,e,b,0); }
long __isoc23_strtol(const char*s,char**e,int b){ return sx_strtol(s,e,b,1&&0); } long long __isoc23_strtoll(const char*s,char**e,int b){ return sx_strtol(s,e,b,0); } unsigned long __isoc23_strtoul(const char*s,char**e,int b){ return sx_strtoul(s,e,b,0); } unsigned long long __isoc23_strtoull(const char*s,char**e,int b){ return sx_strtoul(s,e,b,0); }
int atoi(const char*s){ return (int)strtol(s,0,10); } long atol(const char*s){ return strtol(s,0,10); } long long atoll(const char*s){ return strtol(s,0,10); }
static double p10(int e){ double r=1; for(int i=0;i<e;i++) r*=10.0; return r; }
// decimal floating point (exact while the digits fit 2^53 and |exponent|<=22); inf/nan/hex floats included in the simplest form
double strtod(const char*s,char**end){ const char*p=s; int neg=0; while(isspace((unsigned char)*p)) p++; if(*p=='-'){ neg=1; p++; } else if(*p=='+') p++; uint64_t m=0; int any=0,exp=0,nd=0;
  if((p[0]|32)=='i'&&(p[1]|32)=='n'&&(p[2]|32)=='f'){ if(end){ *end=(char*)p+3; if((p[3]|32)=='i'&&(p[4]|32)=='n'&&(p[5]|32)=='i'&&(p[6]|32)=='t'&&(p[7]|32)=='y') *end=(char*)p+8; } return neg?-__builtin_inf():__builtin_inf(); } if((p[0]|32)=='n'&&(p[1]|32)=='a'&&(p[2]|32)=='n'){ if(end) *end=(char*)p+3; return __builtin_nan(""); }
  if(p[0]=='0'&&(p[1]|32)=='x'&&(isxdigit((unsigned char)p[2])||(p[2]=='.'&&isxdigit((unsigned char)p[3])))){ p+=2; double v=0,sc=1; int dot=0; for(;;p++){ if(*p=='.'&&!dot){ dot=1; continue; } unsigned c=(unsigned char)*p,d; if(c-'0'<10) d=c-'0'; else if((c|32)-'a'<6) d=(c|32)-'a'+10; else break; v=v*16+d; if(dot) sc*=16; } v/=sc; if((*p|32)=='p'){ const char*q=p+1; int en=0,e=0; if(*q=='-'){ en=1; q++; } else if(*q=='+') q++; if(isdigit((unsigned char)*q)){ while(isdigit((unsigned char)*q)){ if(e<5000) e=e*10+(*q-'0'); q++; } p=q; for(int i=0;i<e&&i<2200;i++) v=en?v/2:v*2; } } if(end) *end=(char*)p; return neg?-v:v; }
  for(;isdigit((unsigned char)*p);p++){ any=1; if(nd<18){ m=m*10+(unsigned)(*p-'0'); if(m) nd++; } else exp++; } if(*p=='.'&&(any||isdigit((unsigned char)p[1]))){ p++; for(;isdigit((unsigned char)*p);p++){ any=1; if(nd<18){ m=m*10+(unsigned)(*p-'0'); if(m) nd++; exp--; } } }
  if(!any){ if(end) *end=(char*)s; return 0; } if((*p|32)=='e'){ const char*q=p+1; int en=0,e=0; if(*q=='-'){ en=1; q++; } else if(*q=='+') q++; if(isdigit((unsigned char)*q)){ while(isdigit((unsigned char)*q)){ if(e<10000) e=e*10+(*q-'0'); q++; } p=q; exp+=en?-e:e; } } if(end) *end=(char*)p;
  double v=(double)m; if(exp>0){ if(exp>400) exp=400; v*=p10(exp); } else if(exp<0){ if(exp<-400) exp=-400; v/=p10(-exp); } return neg?-v:v; }
float strtof(const char*s,char**e){ return (float)strtod(s,e); } double atof(const char*s){ return strtod(s,0); }
// ---- formatted output
typedef struct { char*b; unsigned long n,k; } Snk; static void put(Snk*s,char c){ if(s->k+1<s->n) s->b[s->k]=c; s->k++; } static void pad(Snk*s,char c,int n){ while(n-->0) put(s,c); }
static void emit(Snk*s,const char*pre,int np,const char*d,int nd,int zeros,int width,int left,int zpad){ int tot=np+zeros+nd; if(!left&&!zpad) pad(s,' ',width-tot); for(int i=0;i<np;i++) put(s,pre[i]); if(zpad&&!left) pad(s,'0',width-tot); pad(s,'0',zeros); for(int i=0;i<nd;i++) put(s,d[i]); if(left) pad(s,' ',width-tot); }
static void fmtn(Snk*o,const char*f,va_list ap){
  for(;*f;f++){ if(*f!='%'){ put(o,*f); continue; } f++; int left=0,plus=0,sp=0,alt=0,zero=0; for(;;f++){ if(*f=='-') left=1; else if(*f=='+') plus=1; else if(*f==' ') sp=1; else if(*f=='#') alt=1; else if(*f=='0') zero=1; else break; }
    int w=0,pr=-1; if(*f=='*'){ w=va_arg(ap,int); if(w<0){ left=1; w=-w; } f++; } else while(isdigit(*f)) w=w*10+*f++-'0'; if(*f=='.'){ f++; pr=0; if(*f=='*'){ pr=va_arg(ap,int); f++; } else while(isdigit(*f)) pr=pr*10+*f++-'0'; }
    int l=0; for(;;f++){ if(*f=='l') l++; else if(*f=='h') l--; else if(*f=='z'||*f=='j'||*f=='t'||*f=='q') l=2; else if(*f=='L') l=3; else break; }
    char t[72]; char pre[3]; int np=0; unsigned long v; 
    switch(*f){ case '%': put(o,'%'); break; case 'c':{ char c=(char)va_arg(ap,int); if(!left) pad(o,' ',w-1); put(o,c); if(left) pad(o,' ',w-1); break; }
      case 's':{ const char*s=va_arg(ap,const char*); if(!s) s=(pr<0||pr>=6)?"(null)":""; unsigned long n=pr<0?strlen(s):strnlen(s,pr); if(!left) pad(o,' ',w-(int)n); if(o->k<o->n){ unsigned long r=o->n-o->k-1; if(r>n) r=n; memcpy(o->b+o->k,s,r); } o->k+=n; if(left) pad(o,' ',w-(int)n); break; }
      case 'd': case 'i':{ long x=l>=1?va_arg(ap,long):va_arg(ap,int); if(l==-1) x=(short)x; if(l<=-2) x=(signed char)x; int neg=x<0; v=neg?0ul-(unsigned long)x:(unsigned long)x; int i=72; if(v||pr!=0) do{ t[--i]='0'+v%10; v/=10; }while(v); if(neg) pre[np++]='-'; else if(plus) pre[np++]='+'; else if(sp) pre[np++]=' '; emit(o,pre,np,t+i,72-i,pr>72-i?pr-(72-i):0,w,left,zero&&pr<0); break; }
      case 'u':{ v=l>=1?va_arg(ap,unsigned long):va_arg(ap,unsigned); if(l==-1) v=(unsigned short)v; if(l<=-2) v=(unsigned char)v; int i=72; if(v||pr!=0) do{ t[--i]='0'+v%10; v/=10; }while(v); emit(o,pre,0,t+i,72-i,pr>72-i?pr-(72-i):0,w,left,zero&&pr<0); break; }
      case 'p': case 'x': case 'X': case 'o':{ int isP=*f=='p'; int up=*f=='X',oct=*f=='o'; v=isP?(unsigned long)va_arg(ap,void*):l>=1?va_arg(ap,unsigned long):va_arg(ap,unsigned); int bits=l>=1||isP?64:32; if(l==-1){ v=(unsigned short)v; bits=16; } if(l<=-2){ v=(unsigned char)v; bits=8; } if(isP&&!v){ const char*s="(nil)"; emit(o,pre,0,s,5,0,w,left,0); break; }
        int sh=oct?3:4, nd=(bits+sh-1)/sh; int min=pr>=0?pr:(zero&&!left&&!alt)?w:1; if(min>nd) min=nd; if(min<1&&pr!=0) min=1; int top=nd; while(top>min&&((v>>(sh*(top-1)))&((1u<<sh)-1))==0) top--; if(pr==0&&top==0){} for(int i=0;i<top;i++){ unsigned d=(v>>(sh*(top-1-i)))&((1u<<sh)-1); t[i]=d<10?'0'+d:(up?'A':'a')+d-10; } if(isP||(alt&&!oct&&v)){ pre[np++]='0'; pre[np++]=up?'X':'x'; } else if(alt&&oct&&!(top&&t[0]=='0')) pre[np++]='0'; emit(o,pre,np,t,top,pr>top?pr-top:0,w,left,zero&&pr<0); break; }
      case 'f': case 'F': case 'g': case 'G': case 'e': case 'E': case 'a':{ double d; if(l==3) d=(double)va_arg(ap,long double); else d=va_arg(ap,double); char g[32]; int i=0; g[i++]='%'; if(left) g[i++]='-'; if(plus) g[i++]='+'; if(sp) g[i++]=' '; if(alt) g[i++]='#'; if(zero) g[i++]='0'; if(w){ if(w>=100) g[i++]='0'+w/100%10; if(w>=10) g[i++]='0'+w/10%10; g[i++]='0'+w%10; } if(pr>=0){ g[i++]='.'; if(pr>=10) g[i++]='0'+pr/10%10; g[i++]='0'+pr%10; } g[i++]=*f; g[i]=0; char b[400]; int n=__sx_fmt_double(b,sizeof b,g,d); for(int j=0;j<n;j++) put(o,b[j]); break; }
      case 'n':{ int*p=va_arg(ap,int*); *p=(int)o->k; break; } case 'm': { const char*s="error"; for(;*s;s++) put(o,*s); break; }
      case 0: return; default: put(o,'%'); put(o,*f); } } }
int vsnprintf(char*b,unsigned long n,const char*f,va_list ap){ Snk s={b,n,0}; fmtn(&s,f,ap); if(n) b[s.k<n?s.k:n-1]=0; return (int)s.k; }
int vsprintf(char*b,const char*f,va_list ap){ return vsnprintf(b,1ul<<40,f,ap); } int snprintf(char*b,unsigned long n,const char*f,...){ va_list ap; va_start(ap,f); int r=vsnprintf(b,n,f,ap); va_end(ap); return r; } int sprintf(char*b,const char*f,...){ va_list ap; va_start(ap,f); int r=vsnprintf(b,1ul<<40,f,ap); va_end(ap); return r; }
int vasprintf(char**o,const char*f,va_list ap){ va_list a2; va_copy(a2,ap); int n=vsnprintf(0,0,f,a2); va_end(a2); *o=malloc(n+1); return vsnprintf(*o,n+1,f,ap); } int asprintf(char**o,const char*f,...){ va_list ap; va_start(ap,f); int r=vasprintf(o,f,ap); va_end(ap); return r; }
int __snprintf_chk(char*b,unsigned long n,int fl,unsigned long m,const char*f,...){ va_list ap; va_start(ap,f); int r=vsnprintf(b,n,f,ap); va_end(ap); return r; }
extern void __sx_out(int fd,const char*,unsigned long);
void*stdout=(void*)1,*stderr=(void*)2,*stdin=(void*)3; static int vfpf(void*fp,const char*f,va_list ap){ char b[2048]; va_list a2; va_copy(a2,ap); int n=vsnprintf(b,sizeof b,f,a2); va_end(a2); extern int __sx_file_write(void*,const char*,unsigned long); __sx_file_write(fp,b,n<2047?n:2047); return n; }
int vfprintf(void*fp,const char*f,va_list ap){ return vfpf(fp,f,ap); } int fprintf(void*fp,const char*f,...){ va_list ap; va_start(ap,f); int r=vfpf(fp,f,ap); va_end(ap); return r; } int printf(const char*f,...){ va_list ap; va_start(ap,f); int r=vfpf(stdout,f,ap); va_end(ap); return r; } int vprintf(const char*f,va_list ap){ return vfpf(stdout,f,ap); }
extern int __sx_file_write(void*,const char*,unsigned long);
int puts(const char*s){ __sx_file_write(stdout,s,strlen(s)); __sx_file_write(stdout,"\n",1); return 1; } int putchar(int c){ char x=c; __sx_file_write(stdout,&x,1); return c; } int fputs(const char*s,void*fp){ __sx_file_write(fp,s,strlen(s)); return 1; } int fputc(int c,void*fp){ char x=c; __sx_file_write(fp,&x,1); return c; } int putc(int c,void*fp){ return fputc(c,fp); } unsigned long fwrite(const void*p,unsigned long a,unsigned long b,void*fp){ return __sx_file_write(fp,p,a*b)<0?0:b; } int fflush(void*fp){ return 0; } void perror(const char*s){}
// ---- formatted input
static int scanv(const char*s,const char*f,va_list ap){ const char*p=s; int n=0;
  for(;*f;f++){ if(isspace((unsigned char)*f)){ while(isspace((unsigned char)*p)) p++; continue; } if(*f!='%'){ if(!*p) return n?n:-1; if(*p!=*f) return n; p++; continue; } f++; if(*f=='%'){ while(isspace((unsigned char)*p)) p++; if(*p!='%') return n; p++; continue; }
    int sup=0,w=0,l=0; if(*f=='*'){ sup=1; f++; } while(isdigit(*f)) w=w*10+*f++-'0'; for(;;f++){ if(*f=='l') l++; else if(*f=='h') l--; else if(*f=='z'||*f=='j'||*f=='t'||*f=='q'||*f=='L') l=2; else break; }
    char c=*f; if(c=='n'){ int k=(int)(p-s); void*q=va_arg(ap,void*); if(l>=1) *(long*)q=k; else if(l==-1) *(short*)q=k; else *(int*)q=k; continue; } if(c!='c'&&c!='[') while(isspace((unsigned char)*p)) p++; if(!*p) return n?n:-1;
    if(c=='s'){ char*q=sup?0:va_arg(ap,char*); int k=0; while(p[k]&&!isspace((unsigned char)p[k])&&(!w||k<w)) k++; if(q){ memcpy(q,p,k); q[k]=0; n++; } p+=k; }
    else if(c=='c'){ int m=w?w:1; char*q=sup?0:va_arg(ap,char*); for(int i=0;i<m;i++){ if(!*p) return n?n:-1; if(q) q[i]=*p; p++; } if(q) n++; }
    else if(c=='['){ f++; int inv=0; if(*f=='^'){ inv=1; f++; } const char*b=f; if(*f==']') f++; while(*f&&*f!=']') f++; char*q=sup?0:va_arg(ap,char*); int k=0; for(;p[k]&&(!w||k<w);k++){ int in=0; for(const char*t=b;t<f;t++){ if(t+2<f&&t[1]=='-'){ in|=p[k]>=t[0]&p[k]<=t[2]; t+=2; } else in|=p[k]==*t; } if(in==inv) break; } if(!k) return n; if(q){ memcpy(q,p,k); q[k]=0; n++; } p+=k; }
    else if(c=='f'||c=='g'||c=='e'||c=='E'||c=='G'){ char t[64]; const char*r=p; if(w&&w<63){ int k=0; while(k<w&&p[k]){ t[k]=p[k]; k++; } t[k]=0; r=t; } char*e; double d=strtod(r,&e); if(e==r) return n; p+=e-r; if(!sup){ void*q=va_arg(ap,void*); if(l>=1) *(double*)q=d; else *(float*)q=(float)d; n++; } }
    else { int base=c=='d'||c=='u'?10:c=='i'?0:c=='o'?8:16; char t[64]; const char*r=p; if(w&&w<63){ int k=0; while(k<w&&p[k]){ t[k]=p[k]; k++; } t[k]=0; r=t; } int neg,any,ovf; char*e; uint64_t v=sx_strto(r,&e,base,&neg,&any,&ovf,0); if(!any) return n; p+=e-r; if(c=='d'||c=='i'){ if(ovf||v>(neg?(uint64_t)1<<63:(uint64_t)LONG_MAX)) v=neg?(uint64_t)1<<63:LONG_MAX; else if(neg) v=0-v; } else if(ovf) v=~0ull; else if(neg) v=0-v; if(!sup){ void*q=va_arg(ap,void*); if(c=='p'||l>=1) *(uint64_t*)q=v; else if(l==-1) *(uint16_t*)q=v; else if(l<=-2) *(uint8_t*)q=v; else *(uint32_t*)q=v; n++; } } }
  return n; }
int vsscanf(const char*s,const char*f,va_list ap){ return scanv(s,f,ap); } int sscanf(const char*s,const char*f,...){ va_list ap; va_start(ap,f); int r=scanv(s,f,ap); va_end(ap); return r; } int __isoc23_sscanf(const char*s,const char*f,...){ va_list ap; va_start(ap,f); int r=scanv(s,f,ap); va_end(ap); return r; } int __isoc99_sscanf(const char*s,const char*f,...){ va_list ap; va_start(ap,f); int r=scanv(s,f,ap); va_end(ap); return r; } int __isoc23_vsscanf(const char*s,const char*f,va_list ap){ return scanv(s,f,ap); }
// ---- network byte order and text addresses
unsigned short htons(unsigned short x){ return __builtin_bswap16(x); } unsigned short ntohs(unsigned short x){ return __builtin_bswap16(x); } unsigned htonl(unsigned x){ return __builtin_bswap32(x); } unsigned ntohl(unsigned x){ return __builtin_bswap32(x); }
static int pton4(const char*s,unsigned char*o){ for(int i=0;i<4;i++){ if(!isdigit((unsigned char)*s)) return 0; unsigned v=*s++-'0'; int lead=v==0; while(isdigit((unsigned char)*s)){ if(lead) return 0; v=v*10+(*s++-'0'); if(v>255) return 0; } o[i]=v; if(i<3){ if(*s!='.') return 0; s++; } } return *s==0; }
int inet_pton(int af,const char*s,void*d){ if(af==2){ unsigned char b[4]; if(!pton4(s,b)) return 0; memcpy(d,b,4); return 1; } errno=97; return -1; }
int inet_aton(const char*s,void*d){ unsigned long parts[4]; int n=0; const char*p=s; for(;;){ int neg,any,ovf; char*e; if(!isdigit((unsigned char)*p)) return 0; uint64_t v=sx_strto(p,&e,0,&neg,&any,&ovf,0); if(!any||ovf) return 0; parts[n++]=v; p=e; if(*p=='.'){ if(n==4) return 0; p++; } else break; } if(*p&&!isspace((unsigned char)*p)) return 0; uint64_t lim=n==1?0xffffffffull:n==2?0xffffff:n==3?0xffff:0xff; if(parts[n-1]>lim) return 0; for(int i=0;i<n-1;i++) if(parts[i]>255) return 0; unsigned v=parts[n-1]; for(int i=0;i<n-1;i++) v|=(unsigned)parts[i]<<(24-8*i); if(d){ v=__builtin_bswap32(v); memcpy(d,&v,4); } return 1; }
unsigned inet_addr(const char*s){ unsigned v; return inet_aton(s,&v)?v:0xffffffffu; }
char*inet_ntoa(struct ia{ unsigned a; } in){ static char b[18]; unsigned char*p=(unsigned char*)&in; snprintf(b,18,"%d.%d.%d.%d",p[0],p[1],p[2],p[3]); return b; } const char*inet_ntop(int af,const void*a,char*d,unsigned n){ const unsigned char*p=a; char b[18]; if(af!=2){ errno=97; return 0; } int k=snprintf(b,18,"%d.%d.%d.%d",p[0],p[1],p[2],p[3]); if((unsigned)k>=n){ errno=28; return 0; } memcpy(d,b,k+1); return d; }
