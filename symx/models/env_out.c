#include "env.h"
#include <string.h>
#include <errno.h>
// console and plain files (bitcode only): the console is recorded, files are an in-memory store
static struct { char name[128]; char data[2048]; int n; int used; } F[8]; static struct { int f,pos,mode,open; } H[16];
// names are compared with repeated slashes as one
static int same(const char*a,const char*b){ for(;;){ while(*a=='/'&&a[1]=='/') a++; while(*b=='/'&&b[1]=='/') b++; if(*a!=*b) return 0; if(!*a) return 1; a++; b++; } }
static int findF(const char*n){ for(int i=0;i<8;i++) if(F[i].used&&same(F[i].name,n)) return i; return -1; }
int env_file_exists(const char*n){ return findF(n)>=0; } int env_file_get(const char*n,char*b,int m){ int i=findF(n); if(i<0) return -1; int k=F[i].n<m?F[i].n:m; memcpy(b,F[i].data,k); return k; } void env_file_put(const char*n,const char*d,int k){ int i=findF(n); if(i<0) for(i=0;i<8&&F[i].used;i++); if(i>=8) return; F[i].used=1; strcpy(F[i].name,n); memcpy(F[i].data,d,k); F[i].n=k; } void env_file_del(const char*n){ int i=findF(n); if(i>=0) F[i].used=0; } int env_file_open_count(void){ int c=0; for(int i=0;i<16;i++) c+=H[i].open; return c; }
int env_fopen_fail; void (*env_fopen_hook)(const char*); void env_yield_out(const char*s){ for(;*s&&env_nout<4095;s++) env_out[env_nout++]=*s; }

int __sx_fopen(const char*n,int m){ if(env_fopen_fail) return -1; int i=findF(n); if(i<0){ if(!(m&16)) return -1; if(strlen(n)>127) return -1; for(i=0;i<8&&F[i].used;i++); if(i>=8) return -1; F[i].used=1; strcpy(F[i].name,n); F[i].n=0; } else if((m&16)&&!(m&1)&&!(m&8)) F[i].n=0; for(int h=0;h<16;h++) if(!H[h].open){ H[h].open=1; H[h].f=i; H[h].pos=0; H[h].mode=m; if(m&1) H[h].pos=F[i].n; return h; } return -1; }
long __sx_fread(int h,char*p,unsigned long n){ int f=H[h].f; long k=F[f].n-H[h].pos; if(k>(long)n) k=n; memcpy(p,F[f].data+H[h].pos,k); H[h].pos+=k; return k; }
long __sx_fwrite(int h,const char*p,unsigned long n){ int f=H[h].f; for(unsigned long i=0;i<n&&H[h].pos<2048;i++) F[f].data[H[h].pos++]=p[i]; if(H[h].pos>F[f].n) F[f].n=H[h].pos; return n; }
void __sx_fclose(int h){ H[h].open=0; }
int __sx_file_write(void*fp,const char*p,unsigned long n){ long v=(long)fp; if(v>=16&&v<32){ return __sx_fwrite(v-16,p,n); } for(unsigned long i=0;i<n&&env_nout<4095;i++) env_out[env_nout++]=p[i]; return n; }
void*fopen(const char*n,const char*m){ int k=0; if(m[0]=='r') k=8; else if(m[0]=='w') k=16|32; else k=16|1; for(const char*q=m+1;*q;q++) if(*q=='+') k|=8|16; if(env_fopen_hook) env_fopen_hook(n); if(strchr(m,'x')&&findF(n)>=0){ errno=EEXIST; return 0; } int h=__sx_fopen(n,k); return h<0?0:(void*)(long)(16+h); } int fclose(void*fp){ long v=(long)fp; if(v>=16&&v<32) __sx_fclose(v-16); return 0; } int feof(void*fp){ int h=(long)fp-16; return H[h].pos>=F[H[h].f].n; } int ferror(void*fp){ return 0; }
int fgetc(void*fp){ unsigned char c; return __sx_fread((long)fp-16,(char*)&c,1)==1?c:-1; } int getc(void*fp){ return fgetc(fp); } char*fgets(char*b,int n,void*fp){ int i=0; while(i<n-1){ int c=fgetc(fp); if(c<0) break; b[i++]=c; if(c=='\n') break; } if(!i) return 0; b[i]=0; return b; } unsigned long fread(void*p,unsigned long a,unsigned long b,void*fp){ long k=__sx_fread((long)fp-16,p,a*b); return a?k/a:0; } int fileno(void*fp){ return (int)(long)fp; }
