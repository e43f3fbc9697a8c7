// SQLite model: the C API calls and the SQL statements this repository issues, over in-memory tables that outlive a connection (a file name names a database; ":memory:" is private).
// Text values are byte strings (may be symbolic); result codes can be injected through env_sql_hook.  The native replays link the real libsqlite3 instead (native/sql_wrap.c), so every validated path compares this model with it.
#include "env.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <ctype.h>
enum{ T_NULL,T_INT,T_TEXT }; enum{ MAXDB=4,MAXTAB=3,MAXCOL=8,MAXROW=24 };
typedef struct{ int t; int64_t i; char*s; int n; } Val;
typedef struct{ char name[40]; int ncol; char cn[MAXCOL][32]; int aff[MAXCOL],uniq[MAXCOL]; Val def[MAXCOL]; int nrow; Val*row[MAXROW]; } Tab;
typedef struct{ int used,priv; char name[256]; int ntab; Tab*tab[MAXTAB]; } Db;
static Db dbs[MAXDB];
struct sqlite3{ Db*d; int code; void(*hook)(void*,int,const char*,const char*,long long); void*harg; int nstmt; }; typedef struct sqlite3 sqlite3;
typedef struct{ int k; int col; Val v; int l,r; } Ex; // k: 0 value 1 column 2 add 3 max
struct sqlite3_stmt{ sqlite3*db; char*sql; int kind,done,pos,started; Tab*t; int nsel,sel[MAXCOL],nset,setc[MAXCOL],sete[MAXCOL],ncond,condc[4],conde[4],condlike[4],orm; Ex ex[24]; int nex; Tab*nt; char*txt[MAXCOL]; }; typedef struct sqlite3_stmt sqlite3_stmt;
int env_sql_live,env_sql_prepared,env_sql_finalized,env_sql_opened,env_sql_closed,env_sql_steps,env_sql_fail_open; int (*env_sql_hook)(int op,const char*sql);
static void*al(unsigned long n){ env_sql_live++; return malloc(n); } static void fr(void*p){ if(p){ env_sql_live--; free(p); } }
static Val vt(const char*s,int n){ Val v; v.t=T_TEXT; v.i=0; v.n=n; v.s=al(n+1); memcpy(v.s,s,n); v.s[n]=0; return v; } static Val vi(int64_t i){ Val v; v.t=T_INT; v.i=i; v.s=0; v.n=0; return v; } static Val vn(void){ Val v; v.t=T_NULL; v.i=0; v.s=0; v.n=0; return v; }
static Val vdup(Val a){ return a.t==T_TEXT?vt(a.s,a.n):a; } static void vfree(Val*a){ if(a->t==T_TEXT) fr(a->s); a->t=T_NULL; a->s=0; }
static int looksint(const char*s,int n,int64_t*o){ int i=0,neg=0; if(n<=0) return 0; if(s[0]=='-'||s[0]=='+'){ neg=s[0]=='-'; i=1; } if(i>=n) return 0; int64_t v=0; for(;i<n;i++){ if(s[i]<'0'||s[i]>'9') return 0; v=v*10+(s[i]-'0'); } *o=neg?-v:v; return 1; }
static Val totext(Val a){ if(a.t!=T_INT) return a; char b[32]; int n=snprintf(b,32,"%lld",(long long)a.i); return vt(b,n); }
static Val affin(Val a,int integer){ if(integer){ int64_t i; if(a.t==T_TEXT&&looksint(a.s,a.n,&i)){ vfree(&a); return vi(i); } return a; } if(a.t==T_INT) return totext(a); return a; }
static int veq(Val a,Val b){ if(a.t!=b.t||a.t==T_NULL) return 0; if(a.t==T_INT) return a.i==b.i; if(a.n!=b.n) return 0; int d=0; for(int i=0;i<a.n;i++) d|=a.s[i]^b.s[i]; return d==0; }
static int up(int c){ return c>='a'&&c<='z'?c-32:c; } static int ieq(const char*a,const char*b,int n){ for(int i=0;i<n;i++){ if(!b[i]||up(a[i])!=up(b[i])) return 0; } return b[n]==0; }
static int like(const char*p,int pn,const char*s,int n){ if(!pn) return n==0; if(p[0]=='%'){ for(int i=0;i<=n;i++) if(like(p+1,pn-1,s+i,n-i)) return 1; return 0; } if(!n) return 0; if(p[0]!='_'&&up(p[0])!=up(s[0])) return 0; return like(p+1,pn-1,s+1,n-1); }
// ---- parser
typedef struct{ const char*p; sqlite3_stmt*st; int err; int k; const char*s; int n; char*own; } Lx; // k: 0 end 1 ident 2 number 3 'string' 4 "string" 5 punctuation
static void nx(Lx*x){ if(x->own){ fr(x->own); x->own=0; }
	for(;;){ while(*x->p==' '||*x->p=='\t'||*x->p=='\n'||*x->p=='\r'||*x->p=='\f') x->p++; if(x->p[0]=='-'&&x->p[1]=='-'){ while(*x->p&&*x->p!='\n') x->p++; continue; } break; }
	char c=*x->p; x->s=x->p; if(!c){ x->k=0; return; }
	if((c>='a'&&c<='z')||(c>='A'&&c<='Z')||c=='_'){ int n=0; while((x->p[n]>='a'&&x->p[n]<='z')||(x->p[n]>='A'&&x->p[n]<='Z')||(x->p[n]>='0'&&x->p[n]<='9')||x->p[n]=='_') n++; x->k=1; x->n=n; x->p+=n; return; }
	if(c>='0'&&c<='9'){ int n=0; while(x->p[n]>='0'&&x->p[n]<='9') n++; x->k=2; x->n=n; x->p+=n; if((*x->p>='a'&&*x->p<='z')||(*x->p>='A'&&*x->p<='Z')||*x->p=='_'||*x->p=='.') x->err=1; return; }
	if(c=='\''||c=='"'){ const char*q=x->p+1; int m=strlen(q); x->own=al(m+1); int n=0; for(;;){ char d=*q; if(!d){ x->err=1; x->k=0; return; } if(d==c){ if(q[1]==c){ x->own[n++]=c; q+=2; continue; } break; } x->own[n++]=d; q++; } x->own[n]=0; x->s=x->own; x->n=n; x->p=q+1; x->k=c=='"'?4:3; return; }
	x->k=5; x->n=1; if(c=='='&&x->p[1]=='=') x->n=2; x->p+=x->n; if(!(c=='('||c==')'||c==','||c=='*'||c=='='||c=='+'||c==';'||c=='-')) x->err=1; }
static int kw(Lx*x,const char*w){ if(!x->err&&x->k==1&&ieq(x->s,w,x->n)){ nx(x); return 1; } return 0; }
static int isk(Lx*x,const char*w){ return !x->err&&x->k==1&&ieq(x->s,w,x->n); }
static int pc(Lx*x,char c){ if(!x->err&&x->k==5&&x->s[0]==c){ nx(x); return 1; } return 0; }
static void need(Lx*x,int ok){ if(!ok) x->err=1; }
static int name(Lx*x,char*b,int cap){ if(x->err||(x->k!=1&&x->k!=4)||x->n>=cap){ x->err=1; return 0; } memcpy(b,x->s,x->n); b[x->n]=0; nx(x); return 1; }
static int colix(Tab*t,const char*s,int n){ for(int i=0;i<t->ncol;i++) if(n==(int)strlen(t->cn[i])&&ieq(s,t->cn[i],n)) return i; return -1; }
static Tab*table(Lx*x){ char b[40]; if(!name(x,b,40)) return 0; Db*d=x->st->db->d; for(int i=0;i<d->ntab;i++) if(ieq(b,d->tab[i]->name,strlen(b))) return d->tab[i]; x->err=1; return 0; }
static int expr(Lx*x,Tab*scope);
static int prim(Lx*x,Tab*scope){ sqlite3_stmt*s=x->st; if(x->err||s->nex>=24){ x->err=1; return 0; } int id=s->nex++; Ex*e=&s->ex[id]; memset(e,0,sizeof*e);
	if(x->k==2){ int64_t v=0; for(int i=0;i<x->n;i++) v=v*10+(x->s[i]-'0'); e->v=vi(v); nx(x); }
	else if(pc(x,'-')){ if(x->k!=2){ x->err=1; return id; } int64_t v=0; for(int i=0;i<x->n;i++) v=v*10+(x->s[i]-'0'); e->v=vi(-v); nx(x); }
	else if(x->k==3){ e->v=vt(x->s,x->n); nx(x); }
	else if(x->k==4){ int c=scope?colix(scope,x->s,x->n):-1; if(c>=0){ e->k=1; e->col=c; } else e->v=vt(x->s,x->n); nx(x); }
	else if(isk(x,"NULL")){ e->v=vn(); nx(x); }
	else if(isk(x,"MAX")){ nx(x); need(x,pc(x,'(')); int l=expr(x,scope); need(x,pc(x,',')); int r=expr(x,scope); need(x,pc(x,')')); e=&s->ex[id]; e->k=3; e->l=l; e->r=r; }
	else if(x->k==1){ int c=scope?colix(scope,x->s,x->n):-1; if(c<0){ x->err=1; return id; } e->k=1; e->col=c; nx(x); }
	else x->err=1;
	return id; }
static int expr(Lx*x,Tab*scope){ int l=prim(x,scope); while(!x->err&&x->k==5&&x->s[0]=='+'){ nx(x); int r=prim(x,scope); sqlite3_stmt*s=x->st; if(s->nex>=24){ x->err=1; return l; } int id=s->nex++; memset(&s->ex[id],0,sizeof(Ex)); s->ex[id].k=2; s->ex[id].l=l; s->ex[id].r=r; l=id; } return l; }
static void where(Lx*x){ sqlite3_stmt*s=x->st; if(!kw(x,"WHERE")) return; do{ if(s->ncond>=4||x->err||(x->k!=1&&x->k!=4)){ x->err=1; return; } int c=colix(s->t,x->s,x->n); if(c<0){ x->err=1; return; } nx(x); int k=s->ncond++; s->condc[k]=c; if(kw(x,"LIKE")) s->condlike[k]=1; else need(x,pc(x,'=')); s->conde[k]=expr(x,s->t); }while(kw(x,"AND")); }
static int collist(Lx*x){ sqlite3_stmt*s=x->st; s->nsel=0; do{ if(s->nsel>=MAXCOL||(x->k!=1&&x->k!=4)){ x->err=1; return 0; } int c=colix(s->t,x->s,x->n); if(c<0){ x->err=1; return 0; } s->sel[s->nsel++]=c; nx(x); }while(pc(x,',')); return 1; }
enum{ K_CREATE=1,K_PRAGMA,K_INSERT,K_SELECT,K_UPDATE,K_DELETE,K_NOP };
static void parse(Lx*x){ sqlite3_stmt*s=x->st; nx(x);
	if(kw(x,"CREATE")){ need(x,kw(x,"TABLE")); int ine=0; if(kw(x,"IF")){ need(x,kw(x,"NOT")&&kw(x,"EXISTS")); ine=1; } s->kind=K_CREATE; Tab*t=al(sizeof(Tab)); memset(t,0,sizeof*t); s->nt=t; name(x,t->name,40); (void)ine; need(x,pc(x,'(')); 
		for(;!x->err;){ if(t->ncol>=MAXCOL){ x->err=1; break; } int c=t->ncol++; name(x,t->cn[c],32); while(!x->err&&x->k==1){ if(isk(x,"INTEGER")||isk(x,"INT")) t->aff[c]=1; if(isk(x,"UNIQUE")||isk(x,"PRIMARY")) t->uniq[c]=1; if(kw(x,"DEFAULT")){ int e=prim(x,0); if(!x->err) t->def[c]=affin(vdup(s->ex[e].v),t->aff[c]); } else nx(x); } if(pc(x,',')) continue; need(x,pc(x,')')); break; } }
	else if(kw(x,"PRAGMA")){ s->kind=K_PRAGMA; while(!x->err&&x->k) nx(x); }
	else if(isk(x,"INSERT")||isk(x,"REPLACE")){ int rep=isk(x,"REPLACE"); nx(x); s->orm=rep?2:0; if(!rep&&kw(x,"OR")){ if(kw(x,"IGNORE")) s->orm=1; else if(kw(x,"REPLACE")) s->orm=2; else x->err=1; } need(x,kw(x,"INTO")); s->t=table(x); if(!s->t) return; s->kind=K_INSERT; if(pc(x,'(')){ collist(x); need(x,pc(x,')')); } else { s->nsel=s->t->ncol; for(int i=0;i<s->nsel;i++) s->sel[i]=i; } need(x,kw(x,"VALUES")); need(x,pc(x,'(')); do{ if(s->nset>=MAXCOL){ x->err=1; break; } s->sete[s->nset++]=expr(x,0); }while(pc(x,',')); need(x,pc(x,')')); need(x,s->nset==s->nsel); }
	else if(kw(x,"SELECT")){ s->kind=K_SELECT; const char*save=0; /* columns are resolved once the table is known */ char cols[MAXCOL][32]; int nc=0,all=0; if(pc(x,'*')) all=1; else do{ if(nc>=MAXCOL){ x->err=1; break; } name(x,cols[nc++],32); }while(pc(x,',')); (void)save; need(x,kw(x,"FROM")); s->t=table(x); if(!s->t) return; if(all){ s->nsel=s->t->ncol; for(int i=0;i<s->nsel;i++) s->sel[i]=i; } else for(int i=0;i<nc;i++){ int c=colix(s->t,cols[i],strlen(cols[i])); if(c<0){ x->err=1; return; } s->sel[s->nsel++]=c; } where(x); }
	else if(kw(x,"UPDATE")){ s->t=table(x); if(!s->t) return; s->kind=K_UPDATE; need(x,kw(x,"SET")); do{ if(s->nset>=MAXCOL||(x->k!=1&&x->k!=4)){ x->err=1; break; } int c=colix(s->t,x->s,x->n); if(c<0){ x->err=1; break; } nx(x); need(x,pc(x,'=')); s->setc[s->nset]=c; s->sete[s->nset]=expr(x,s->t); s->nset++; }while(pc(x,',')); where(x); }
	else if(kw(x,"DELETE")){ need(x,kw(x,"FROM")); s->t=table(x); if(!s->t) return; s->kind=K_DELETE; where(x); }
	else if(isk(x,"BEGIN")||isk(x,"COMMIT")||isk(x,"END")){ s->kind=K_NOP; while(!x->err&&x->k==1) nx(x); }
	else if(x->k==0) s->kind=K_NOP; else x->err=1;
	while(!x->err&&pc(x,';')); if(x->k) x->err=1; }
static void freeTab(Tab*t){ for(int r=0;r<t->nrow;r++){ for(int c=0;c<t->ncol;c++) vfree(&t->row[r][c]); fr(t->row[r]); } for(int c=0;c<t->ncol;c++) vfree(&t->def[c]); fr(t); }
static void freetxt(sqlite3_stmt*s){ for(int i=0;i<MAXCOL;i++){ fr(s->txt[i]); s->txt[i]=0; } }
static void destroy(sqlite3_stmt*s){ for(int i=0;i<s->nex;i++) vfree(&s->ex[i].v); if(s->nt) freeTab(s->nt); freetxt(s); fr(s->sql); fr(s); }
int sqlite3_open(const char*fn,sqlite3**out){ env_sql_opened++; sqlite3*h=al(sizeof*h); memset(h,0,sizeof*h); *out=h; if(env_sql_fail_open){ h->code=14; return 14; } int free_=-1; int priv=!strcmp(fn,":memory:")||!*fn; for(int i=0;i<MAXDB;i++){ if(!dbs[i].used){ if(free_<0) free_=i; } else if(!priv&&!dbs[i].priv&&!strcmp(dbs[i].name,fn)){ h->d=&dbs[i]; return 0; } } if(free_<0){ h->code=14; return 14; } Db*d=&dbs[free_]; memset(d,0,sizeof*d); d->used=1; d->priv=priv; strncpy(d->name,fn,255); h->d=d; return 0; }
int sqlite3_open_v2(const char*fn,sqlite3**out,int fl,const char*v){ return sqlite3_open(fn,out); }
int sqlite3_close(sqlite3*h){ env_sql_closed++; if(!h) return 0; if(h->nstmt) return 5; if(h->d&&h->d->priv){ for(int i=0;i<h->d->ntab;i++) freeTab(h->d->tab[i]); h->d->used=0; } fr(h); return 0; }
const char*sqlite3_errmsg(sqlite3*h){ if(!h) return "out of memory"; return h->code?"error":"not an error"; } int sqlite3_errcode(sqlite3*h){ return h->code; }
int sqlite3_busy_timeout(sqlite3*h,int ms){ return 0; }
int sqlite3_prepare_v2(sqlite3*h,const char*sql,int n,sqlite3_stmt**out,const char**tail){ *out=0; if(!h||!h->d) return 21; if(env_sql_hook){ int rc=env_sql_hook(0,sql); if(rc){ h->code=rc; return rc; } }
	sqlite3_stmt*s=al(sizeof*s); memset(s,0,sizeof*s); s->db=h; int L=strlen(sql); if(n>=0&&n<L) L=n; s->sql=al(L+1); memcpy(s->sql,sql,L); s->sql[L]=0; Lx x; memset(&x,0,sizeof x); x.p=s->sql; x.st=s; parse(&x); fr(x.own); if(x.err){ destroy(s); h->code=1; return 1; } h->code=0; h->nstmt++; env_sql_prepared++; *out=s; return 0; }
const char*sqlite3_sql(sqlite3_stmt*s){ return s?s->sql:0; }
int sqlite3_finalize(sqlite3_stmt*s){ if(!s) return 0; env_sql_finalized++; s->db->nstmt--; destroy(s); return 0; }
int sqlite3_reset(sqlite3_stmt*s){ if(s){ s->started=0; s->pos=0; s->done=0; } return 0; }
static Val eval(sqlite3_stmt*s,int e,Val*row){ Ex*x=&s->ex[e]; if(x->k==0) return vdup(x->v); if(x->k==1) return vdup(row[x->col]); Val a=affin(eval(s,x->l,row),1),b=affin(eval(s,x->r,row),1); if(a.t==T_NULL||b.t==T_NULL){ vfree(&a); vfree(&b); return vn(); } if(x->k==2){ Val r=vi((a.t==T_INT?a.i:0)+(b.t==T_INT?b.i:0)); vfree(&a); vfree(&b); return r; } /* MAX: integers sort before text */ if(a.t==T_INT&&b.t==T_INT) return vi(a.i>b.i?a.i:b.i); if(a.t==T_TEXT&&b.t==T_INT){ return a; } if(b.t==T_TEXT&&a.t==T_INT) return b; { int c=memcmp(a.s,b.s,a.n<b.n?a.n:b.n); if(!c) c=a.n-b.n; if(c>=0){ vfree(&b); return a; } vfree(&a); return b; } }
static int match(sqlite3_stmt*s,Val*row){ for(int k=0;k<s->ncond;k++){ Val b=eval(s,s->conde[k],row); Val a=row[s->condc[k]]; int ok; if(s->condlike[k]){ ok=a.t==T_TEXT&&b.t==T_TEXT&&like(b.s,b.n,a.s,a.n); } else { if(s->ex[s->conde[k]].k!=1) b=affin(b,s->t->aff[s->condc[k]]); ok=veq(a,b); } vfree(&b); if(!ok) return 0; } return 1; }
static void tell(sqlite3*h,int op,Tab*t,int row){ if(h->hook) h->hook(h->harg,op,"main",t->name,row+1); }
static void delrow(Tab*t,int r){ for(int c=0;c<t->ncol;c++) vfree(&t->row[r][c]); fr(t->row[r]); for(int k=r;k+1<t->nrow;k++) t->row[k]=t->row[k+1]; t->nrow--; }
int sqlite3_step(sqlite3_stmt*s){ if(!s) return 21; freetxt(s); sqlite3*h=s->db; env_sql_steps++; if(env_sql_hook){ int rc=env_sql_hook(1,s->sql); if(rc){ h->code=rc; return rc; } } h->code=0; Tab*t=s->t;
	if(s->done){ s->done=0; s->pos=0; }
	switch(s->kind){
	case K_CREATE:{ Db*d=h->d; for(int i=0;i<d->ntab;i++) if(ieq(s->nt->name,d->tab[i]->name,strlen(s->nt->name))) goto done; if(d->ntab>=MAXTAB){ h->code=13; return 13; } d->tab[d->ntab++]=s->nt; s->nt=0; goto done; }
	case K_PRAGMA: if(s->pos++==0){ freetxt(s); s->txt[0]=al(4); memcpy(s->txt[0],"wal",4); return 100; } goto done;
	case K_INSERT:{ if(t->nrow>=MAXROW){ h->code=13; return 13; } Val*row=al(sizeof(Val)*MAXCOL); for(int c=0;c<MAXCOL;c++) row[c]=vn(); for(int c=0;c<t->ncol;c++) row[c]=vdup(t->def[c]); for(int k=0;k<s->nsel;k++){ vfree(&row[s->sel[k]]); row[s->sel[k]]=affin(eval(s,s->sete[k],0),t->aff[s->sel[k]]); }
		for(int c=0;c<t->ncol;c++) if(t->uniq[c]) for(int r=0;r<t->nrow;r++) if(veq(t->row[r][c],row[c])){ if(s->orm==2){ delrow(t,r); break; } for(int q=0;q<t->ncol;q++) vfree(&row[q]); fr(row); if(s->orm==1) goto done; h->code=19; return 19; }
		t->row[t->nrow++]=row; tell(h,18,t,t->nrow-1); goto done; }
	case K_SELECT: for(;s->pos<t->nrow;s->pos++) if(match(s,t->row[s->pos])){ s->pos++; s->started=1; return 100; } goto done;
	case K_UPDATE: for(int r=0;r<t->nrow;r++) if(match(s,t->row[r])){ Val nv[MAXCOL]; for(int k=0;k<s->nset;k++) nv[k]=affin(eval(s,s->sete[k],t->row[r]),t->aff[s->setc[k]]); for(int k=0;k<s->nset;k++){ vfree(&t->row[r][s->setc[k]]); t->row[r][s->setc[k]]=nv[k]; } tell(h,23,t,r); } goto done;
	case K_DELETE: for(int r=0;r<t->nrow;) if(match(s,t->row[r])){ tell(h,9,t,r); delrow(t,r); } else r++; goto done;
	default: goto done; }
done: s->done=1; s->started=0; return 101; }
static Val*cur(sqlite3_stmt*s,int c){ if(!s||!s->started||s->kind!=K_SELECT||c<0||c>=s->nsel||s->pos<1||s->pos>s->t->nrow) return 0; return &s->t->row[s->pos-1][s->sel[c]]; }
int sqlite3_column_count(sqlite3_stmt*s){ return s?(s->kind==K_SELECT?s->nsel:s->kind==K_PRAGMA):0; }
const unsigned char*sqlite3_column_text(sqlite3_stmt*s,int c){ if(s&&s->kind==K_PRAGMA) return (unsigned char*)s->txt[0]; Val*v=cur(s,c); if(!v||v->t==T_NULL) return 0; Val d=v->t==T_INT?totext(*v):vdup(*v); fr(s->txt[c]); s->txt[c]=d.s; return (unsigned char*)s->txt[c]; }
int sqlite3_column_bytes(sqlite3_stmt*s,int c){ Val*v=cur(s,c); if(!v||v->t==T_NULL) return 0; if(v->t==T_INT){ char b[32]; return snprintf(b,32,"%lld",(long long)v->i); } return v->n; }
long long sqlite3_column_int64(sqlite3_stmt*s,int c){ Val*v=cur(s,c); if(!v||v->t==T_NULL) return 0; if(v->t==T_INT) return v->i; int i=0,neg=0; while(i<v->n&&(v->s[i]==' '||(v->s[i]>=9&&v->s[i]<=13))) i++; if(i<v->n&&(v->s[i]=='-'||v->s[i]=='+')) neg=v->s[i++]=='-'; int64_t x=0; for(;i<v->n&&v->s[i]>='0'&&v->s[i]<='9';i++) x=x*10+(v->s[i]-'0'); return neg?-x:x; }
int sqlite3_column_int(sqlite3_stmt*s,int c){ return (int)sqlite3_column_int64(s,c); } int sqlite3_column_type(sqlite3_stmt*s,int c){ Val*v=cur(s,c); return !v||v->t==T_NULL?5:v->t==T_INT?1:3; }
void*sqlite3_update_hook(sqlite3*h,void(*f)(void*,int,const char*,const char*,long long),void*a){ void*o=h->harg; h->hook=f; h->harg=a; return o; }
// ---- harness side
int env_sql_exec(const char*file,const char*sql){ int(*k)(int,const char*)=env_sql_hook; env_sql_hook=0; sqlite3*h; int o=env_sql_opened,p=env_sql_prepared,f=env_sql_finalized,c=env_sql_closed,n=env_sql_steps; int rc=sqlite3_open(file,&h); if(!rc){ sqlite3_stmt*s; rc=sqlite3_prepare_v2(h,sql,-1,&s,0); if(!rc){ rc=sqlite3_step(s); sqlite3_finalize(s); } } sqlite3_close(h); env_sql_hook=k; env_sql_opened=o; env_sql_prepared=p; env_sql_finalized=f; env_sql_closed=c; env_sql_steps=n; return rc; }
// the first column of the first row of a query: 1 and the text in b, 0 if there is no row, -1 if NULL
int env_sql_get(const char*file,const char*sql,char*b,int cap,int*len){ int(*k)(int,const char*)=env_sql_hook; env_sql_hook=0; int o=env_sql_opened,p=env_sql_prepared,f=env_sql_finalized,c=env_sql_closed,n=env_sql_steps; sqlite3*h; int r=0; if(len) *len=0; if(!sqlite3_open(file,&h)){ sqlite3_stmt*s; if(!sqlite3_prepare_v2(h,sql,-1,&s,0)){ if(sqlite3_step(s)==100){ const char*t=(const char*)sqlite3_column_text(s,0); if(!t) r=-1; else { int m=sqlite3_column_bytes(s,0); r=1; if(len) *len=m; if(m>=cap) m=cap-1; memcpy(b,t,m); b[m]=0; } } sqlite3_finalize(s); } } sqlite3_close(h); env_sql_hook=k; env_sql_opened=o; env_sql_prepared=p; env_sql_finalized=f; env_sql_closed=c; env_sql_steps=n; return r; }
void env_sql_reset(void){}
