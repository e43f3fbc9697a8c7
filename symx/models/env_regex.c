// Regular expression model (POSIX extended, the subset documented in DESIGN.md): the pattern is parsed into a nondeterministic automaton; matching a symbolic text
// tracks the set of automaton states as symbolic flags, so it does not fork.  Native replays use the C library.
#include <regex.h>
#include <stdlib.h>
#include <string.h>
enum{ MAXN=220 };
typedef struct{ int k,to,to2; unsigned char*set; } Nd; // k: 0 empty 1 split 2 set 3 ^ 4 $ 5 accept
typedef struct{ Nd n[MAXN]; int nn,start,icase; unsigned char*rc[4][MAXN]; } Re;
typedef struct{ const char*p,*beg; Re*r; int err,flags,depth; } Ps;
static int nd(Ps*x,int k,int a,int b){ if(x->r->nn>=MAXN){ x->err=REG_ESPACE; return 0; } Nd*n=&x->r->n[x->r->nn]; n->k=k; n->to=a; n->to2=b; n->set=0; return x->r->nn++; }
typedef struct{ int s,e; } Fr; // fragment: start node, end node (an empty node whose 'to' is open)
static Fr alt(Ps*x);
static Fr emptyf(Ps*x){ Fr f; f.s=f.e=nd(x,0,-1,-1); return f; }
static Fr setf(Ps*x,unsigned char*set){ Fr f; f.e=nd(x,0,-1,-1); f.s=nd(x,2,f.e,-1); x->r->n[f.s].set=set; return f; }
static unsigned char*mkset(void){ unsigned char*s=malloc(256); memset(s,0,256); return s; }
static void addc(Ps*x,unsigned char*s,int c){ s[c&255]=1; if(x->r->icase){ if(c>='a'&&c<='z') s[c-32]=1; if(c>='A'&&c<='Z') s[c+32]=1; } }
static int cls(const char*n,int len,int c){
#define C_(nm,ex) if(len==(int)sizeof(nm)-1&&!strncmp(n,nm,len)) return (ex)?1:0;
	int d=c>='0'&&c<='9',u=c>='A'&&c<='Z',l=c>='a'&&c<='z'; C_("digit",d) C_("alpha",u||l) C_("alnum",d||u||l) C_("upper",u) C_("lower",l) C_("space",c==' '||(c>=9&&c<=13)) C_("xdigit",d||(c>='a'&&c<='f')||(c>='A'&&c<='F')) C_("punct",c>32&&c<127&&!d&&!u&&!l) C_("blank",c==' '||c==9) C_("print",c>=32&&c<127) C_("graph",c>32&&c<127) C_("cntrl",c<32||c==127) return -1; }
static Fr bracket(Ps*x){ unsigned char*s=mkset(); int neg=0,first=1; if(*x->p=='^'){ neg=1; x->p++; } for(;;first=0){ char c=*x->p; if(!c){ x->err=REG_EBRACK; free(s); return emptyf(x); } if(c==']'&&!first){ x->p++; break; } if(c=='['&&x->p[1]==':'){ const char*e=strstr(x->p+2,":]"); if(!e){ x->err=REG_EBRACK; free(s); return emptyf(x); } int len=(int)(e-x->p-2); for(int i=1;i<256;i++){ int m=cls(x->p+2,len,i); if(m<0){ x->err=REG_ECTYPE; free(s); return emptyf(x); } if(m) addc(x,s,i); } x->p=e+2; continue; } if(c=='['&&(x->p[1]=='.'||x->p[1]=='=')){ x->err=REG_ECOLLATE; free(s); return emptyf(x); }
		x->p++; if(*x->p=='-'&&x->p[1]&&x->p[1]!=']'){ unsigned char hi=(unsigned char)x->p[1]; x->p+=2; if(hi<(unsigned char)c){ x->err=REG_ERANGE; free(s); return emptyf(x); } for(int i=(unsigned char)c;i<=hi;i++) addc(x,s,i); } else addc(x,s,(unsigned char)c); }
	if(neg) for(int i=1;i<256;i++) s[i]=!s[i]; s[0]=0; if(neg&&(x->flags&REG_NEWLINE)) s['\n']=0; return setf(x,s); }
static Fr atom(Ps*x,int*isanchor){ char c=*x->p; *isanchor=0; switch(c){
	case '(':{ x->p++; x->depth++; Fr f=alt(x); x->depth--; if(*x->p!=')'){ if(!x->err) x->err=REG_EPAREN; return f; } x->p++; return f; }
	case '[': x->p++; return bracket(x);
	case '.':{ x->p++; unsigned char*s=mkset(); for(int i=1;i<256;i++) s[i]=1; if(x->flags&REG_NEWLINE) s['\n']=0; return setf(x,s); }
	case '^': { x->p++; *isanchor=1; Fr f; f.e=nd(x,0,-1,-1); f.s=nd(x,3,f.e,-1); return f; }
	case '$': { x->p++; *isanchor=1; Fr f; f.e=nd(x,0,-1,-1); f.s=nd(x,4,f.e,-1); return f; }
	case '*': case '+': case '?': case '{': x->err=REG_BADRPT; return emptyf(x);
	case '\\': if(!x->p[1]){ x->err=REG_EESCAPE; return emptyf(x); } x->p++; c=*x->p; break; }
	x->p++; unsigned char*s=mkset(); addc(x,s,(unsigned char)c); return setf(x,s); }
static Fr copyatom(Ps*x,const char*at){ const char*save=x->p; int an; x->p=at; Fr f=atom(x,&an); x->p=save; return f; }
static Fr cat(Ps*x,Fr a,Fr b){ x->r->n[a.e].to=b.s; Fr f={a.s,b.e}; return f; }
static Fr star(Ps*x,Fr a){ int e=nd(x,0,-1,-1),s=nd(x,1,a.s,e); x->r->n[a.e].to=s; Fr f={s,e}; return f; }
static Fr opt(Ps*x,Fr a){ int e=nd(x,0,-1,-1),s=nd(x,1,a.s,e); x->r->n[a.e].to=e; Fr f={s,e}; return f; }
static Fr branch(Ps*x){ Fr f=emptyf(x); while(!x->err&&*x->p&&*x->p!='|'&&!(*x->p==')'&&x->depth)){ const char*at=x->p; int an; Fr a=atom(x,&an); if(x->err) return f; while(!an&&(*x->p=='*'||*x->p=='+'||*x->p=='?'||*x->p=='{')){ char c=*x->p; const char*end=x->p; 
			if(c!='{'){ x->p++; if(c=='*') a=star(x,a); else if(c=='?') a=opt(x,a); else { int e=nd(x,0,-1,-1),s=nd(x,1,a.s,e); x->r->n[a.e].to=s; a.e=e; } continue; }
			int lo=0,hi,any=0; x->p++; while(*x->p>='0'&&*x->p<='9'){ lo=lo*10+*x->p++-'0'; any=1; if(lo>255){ x->err=REG_BADBR; return f; } } hi=lo; if(*x->p==','){ x->p++; if(*x->p>='0'&&*x->p<='9'){ hi=0; while(*x->p>='0'&&*x->p<='9'){ hi=hi*10+*x->p++-'0'; if(hi>255){ x->err=REG_BADBR; return f; } } } else hi=-1; } else if(!any){ x->err=REG_BADBR; return f; } if(*x->p!='}'){ x->err=*x->p?REG_BADBR:REG_EBRACE; return f; } x->p++; if(hi>=0&&hi<lo){ x->err=REG_BADBR; return f; } (void)end;
			Fr r=emptyf(x); for(int i=0;i<lo;i++) r=cat(x,r,copyatom(x,at)); if(hi<0) r=cat(x,r,star(x,copyatom(x,at))); else for(int i=lo;i<hi;i++) r=cat(x,r,opt(x,copyatom(x,at))); a=r; if(x->err) return f; }
		f=cat(x,f,a); } return f; }
static Fr alt(Ps*x){ Fr f=branch(x); while(!x->err&&*x->p=='|'){ x->p++; Fr g=branch(x); int e=nd(x,0,-1,-1),s=nd(x,1,f.s,g.s); x->r->n[f.e].to=e; x->r->n[g.e].to=e; f.s=s; f.e=e; } return f; }
int env_regcomps,env_regfrees;
void regfree(regex_t*r){ Re*q=(Re*)*(void**)r; env_regfrees++; if(q){ for(int i=0;i<q->nn;i++){ free(q->n[i].set); for(int v=0;v<4;v++) free(q->rc[v][i]); } free(q); } *(void**)r=0; }
int regcomp(regex_t*r,const char*pat,int flags){ Re*q=malloc(sizeof(Re)); memset(q,0,sizeof(Re)); q->icase=(flags&REG_ICASE)!=0; memset(r,0,sizeof*r); *(void**)r=q; Ps x={pat,pat,q,0,flags,0}; Fr f=alt(&x); int acc=nd(&x,5,-1,-1); q->n[f.e].to=acc; q->start=f.s; if(x.err){ regfree(r); env_regfrees--; *(void**)r=(void*)0x5a5a; return x.err; } env_regcomps++; return 0; }
size_t regerror(int e,const regex_t*r,char*b,size_t n){ static const char m[]="invalid regular expression"; size_t k=sizeof m; if(n){ size_t c=k<n?k:n; memcpy(b,m,c); b[c-1]=0; } return k; }
static void visit(Re*q,int i,int bol,int eol,unsigned char*seen,unsigned char*out){ if(i<0||seen[i]) return; seen[i]=1; Nd*n=&q->n[i]; switch(n->k){ case 2: case 5: out[i]=1; return; case 3: if(bol) visit(q,n->to,bol,eol,seen,out); return; case 4: if(eol) visit(q,n->to,bol,eol,seen,out); return; case 1: visit(q,n->to2,bol,eol,seen,out); } visit(q,n->to,bol,eol,seen,out); }
static unsigned char*reach(Re*q,int v,int i){ unsigned char**r=&q->rc[v][i]; if(!*r){ unsigned char seen[MAXN]; *r=malloc(MAXN); memset(*r,0,MAXN); memset(seen,0,MAXN); visit(q,i,v&2,v&1,seen,*r); } return *r; }
int regexec(const regex_t*r,const char*t,size_t nm,regmatch_t m[],int eflags){ Re*q=(Re*)*(void*const*)r; size_t len=strlen(t); unsigned char on[MAXN],nx[MAXN],hit=0; memset(on,0,MAXN); for(size_t i=0;;i++){ int v=(i==0&&!(eflags&REG_NOTBOL)?2:0)|(i==len&&!(eflags&REG_NOTEOL)?1:0);
	memset(nx,0,MAXN); unsigned char*re=reach(q,v,q->start); for(int j=0;j<q->nn;j++) if(re[j]) nx[j]=1;
	if(i){ unsigned char c=(unsigned char)t[i-1]; for(int k=0;k<q->nn;k++) if(q->n[k].k==2){ unsigned char g=on[k]&q->n[k].set[c]; re=reach(q,v,q->n[k].to); for(int j=0;j<q->nn;j++) if(re[j]) nx[j]|=g; } }
	memcpy(on,nx,MAXN); for(int k=0;k<q->nn;k++) if(q->n[k].k==5) hit|=on[k]; if(i==len) break; } return hit?0:REG_NOMATCH; }
