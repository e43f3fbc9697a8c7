/*SPEC
BOUNDS='every sequence of up to k operations (4) out of the 12-14 kinds over three vectors of 0..3 elements with arbitrary content; every segment start and span'
OUTSIDE='longer operation sequences; element types with constructors; assigning a vector from its own segment and using an alias after its parent released the storage (contract of the class)'
K=4
case('bitvec',k=K,n=2,reach=['end'],time=500,maxstates=60000000,steps=2000000000)
case('vec',k=K,n=2,reach=['end'],time=500,maxstates=60000000,steps=2000000000)
case('segments',n=6,reach=['done','stopped'],time=200)
case('copies',n=5,reach=['done','stopped'],time=200)
case('fillpart',n=5,reach=['done','stopped'],time=100)
case('bounds',n=4,reach=['in','out'],time=100)
case('selfassign',n=4,reach=['done'],time=100)
case('clonealias',n=5,reach=['done'],time=100)
case('soft',n=4,reach=['done'],time=100)
*/
#include "symx.h"
#include "BitVector.h"
#include <new>
enum { S=3, MX=16 };
// reference model: every slot views [off,off+len) of a block; blocks are owned by at most one slot
struct Ref{ int blk; unsigned off,len; bool own; };
static unsigned char mem[32][MX]; static int nblk; static unsigned blklen[32]; static bool alive[32];
static int newblk(unsigned n){ alive[nblk]=true; blklen[nblk]=n; return nblk++; }
template<class V> struct W{ V*v[S]; Ref r[S]; bool has[S]; };
static bool attached(Ref*r,bool*has,int i){ return !has[i]||r[i].len==0||r[i].blk<0||alive[r[i].blk]; }
template<class V> static void checkAll(V**v,Ref*r,bool*has){
	for(int i=0;i<S;i++) if(has[i]&&attached(r,has,i)){ SYM_ASSERT(v[i]->size()==r[i].len,"size differs from the sequence semantics"); bool ok=true; for(unsigned j=0;j<r[i].len;j++) ok&=(unsigned char)v[i]->begin()[j]==mem[r[i].blk][r[i].off+j]; SYM_ASSERT(ok,"contents differ from the sequence semantics"); SYM_ASSERT(v[i]->isOwner()==(r[i].own&&r[i].len>0),"ownership differs"); }
}
static void drop(Ref*r,int i){ if(r[i].own&&r[i].blk>=0) alive[r[i].blk]=false; r[i].blk=-1; r[i].len=0; r[i].off=0; r[i].own=false; }
static void cloneRef(Ref*r,int d,Ref src){ Ref n; n.own=true; n.len=src.len; n.off=0; n.blk=newblk(src.len); for(unsigned j=0;j<src.len;j++) mem[n.blk][j]=mem[src.blk][src.off+j]; drop(r,d); r[d]=n; }
static bool aliasOf(Ref*r,int a,int b){ return r[a].blk>=0&&r[a].blk==r[b].blk; }
static bool fresh(bool*has,int a){ for(int i=0;i<a;i++) if(!has[i]) return false; return !has[a]; }	// slots are interchangeable: construct in the first free one
static void bitvec(){
	typedef BitVector V; int k=sym_param("k",3); unsigned n=sym_param("n",2); alignas(V) static char st[S][sizeof(V)]; V*v[S]; Ref r[S]; bool has[S]; for(int i=0;i<S;i++){ v[i]=(V*)st[i]; has[i]=false; r[i]={-1,0,0,false}; }
	int64_t live=sym_live_blocks();
	auto init=[&](int i,unsigned len){ new(v[i]) V((size_t)len); has[i]=true; r[i]={newblk(len),0,len,true}; sym_bytes(v[i]->begin(),len,"content"); for(unsigned j=0;j<len;j++) mem[r[i].blk][j]=v[i]->begin()[j]; };
	init(0,n);
	for(int s=0;s<k;s++){
		int op=sym_choice(12,"op"), a=sym_choice(S,"a"), b=sym_choice(S,"b");
		bool needB=op>=1&&op<=6; if(needB){ SYM_ASSUME(has[b]&&attached(r,has,b)); if(op!=4&&op!=2&&op!=3) SYM_ASSUME(a!=b); } else if(op==0||op>=7) SYM_ASSUME(b==0);
		switch(op){
		case 0: SYM_ASSUME(fresh(has,a)); init(a,sym_choice(3,"len")); break;
		case 1: SYM_ASSUME(fresh(has,a)); new(v[a]) V(*v[b]); has[a]=true; if(r[b].own&&r[b].len) cloneRef(r,a,r[b]); else { r[a]=r[b]; r[a].own=false; } break;	// copy construct
		case 2: SYM_ASSUME(has[a]&&!(a!=b&&r[a].own&&aliasOf(r,a,b))); *v[a]=*v[b]; if(r[b].own&&r[b].len) cloneRef(r,a,r[b]); else { Ref x=r[b]; drop(r,a); r[a]=x; r[a].own=false; } break;	// assign
		case 3: SYM_ASSUME(has[a]); v[a]->clone(*v[b]); cloneRef(r,a,r[b]); break;
		case 4: { SYM_ASSUME(fresh(has,a)); int c=sym_choice(S,"c"); SYM_ASSUME(has[c]&&attached(r,has,c)); new(v[a]) V(*v[b],*v[c]); has[a]=true; Ref x={newblk(r[b].len+r[c].len),0,r[b].len+r[c].len,true}; for(unsigned j=0;j<r[b].len;j++) mem[x.blk][j]=mem[r[b].blk][r[b].off+j]; for(unsigned j=0;j<r[c].len;j++) mem[x.blk][r[b].len+j]=mem[r[c].blk][r[c].off+j]; r[a]=x; break; }
		case 5: { SYM_ASSUME(fresh(has,a)); unsigned o=sym_choice(r[b].len+1,"off"), l=sym_choice(r[b].len-o+1,"span"); new(v[a]) V(v[b]->segment(o,l)); has[a]=true; r[a]=r[b]; r[a].own=false; r[a].off+=o; r[a].len=l; break; }
		case 6: { SYM_ASSUME(fresh(has,a)); unsigned o=sym_choice(r[b].len+1,"off"), l=sym_choice(r[b].len-o+1,"span"); new(v[a]) V(v[b]->cloneSegment(o,l)); has[a]=true; Ref x=r[b]; x.off+=o; x.len=l; cloneRef(r,a,x); break; }
		case 7: SYM_ASSUME(has[a]); { unsigned l=sym_choice(3,"len"); v[a]->resize(l); drop(r,a); r[a]={newblk(l),0,l,true}; for(unsigned j=0;j<l;j++) mem[r[a].blk][j]=v[a]->begin()[j]=(char)(j+1); break; }
		case 8: SYM_ASSUME(has[a]); v[a]->clear(); drop(r,a); break;
		case 9: SYM_ASSUME(has[a]); v[a]->~V(); drop(r,a); has[a]=false; break;
		case 10: SYM_ASSUME(has[a]&&attached(r,has,a)&&r[a].len>0); { unsigned char x=sym<uint8_t>("x"); unsigned j=sym_choice(r[a].len,"at"); (*v[a])[j]=x; mem[r[a].blk][r[a].off+j]=x; break; }
		case 11: { SYM_ASSUME(has[a]&&attached(r,has,a)); int c=sym_choice(S,"c"); SYM_ASSUME(fresh(has,c)); new(v[c]) V(v[a]->alias()); has[c]=true; r[c]=r[a]; r[c].own=false; break; }
		}
		checkAll(v,r,has);
	}
	for(int i=0;i<S;i++) if(has[i]) v[i]->~V();
	SYM_ASSERT(sym_live_blocks()==live,"storage leaked"); sym_reach("end");
}
// Vector<T>: const copies clone, non-const copies and assignments take over ownership, segments alias
static void vec(){
	typedef Vector<unsigned char> V; int k=sym_param("k",3); unsigned n=sym_param("n",2); alignas(V) static char st[S][sizeof(V)]; V*v[S]; Ref r[S]; bool has[S]; for(int i=0;i<S;i++){ v[i]=(V*)st[i]; has[i]=false; r[i]={-1,0,0,false}; }
	int64_t live=sym_live_blocks();
	auto init=[&](int i,unsigned len){ new(v[i]) V(len); has[i]=true; r[i]={newblk(len),0,len,true}; sym_bytes(v[i]->begin(),len,"content"); for(unsigned j=0;j<len;j++) mem[r[i].blk][j]=v[i]->begin()[j]; };
	init(0,n);
	for(int s=0;s<k;s++){
		int op=sym_choice(13,"op"), a=sym_choice(S,"a"), b=sym_choice(S,"b");
		bool needB=op>=1&&op<=8; if(needB){ SYM_ASSUME(has[b]&&attached(r,has,b)); if(op!=6&&op!=3&&op!=4&&op!=5) SYM_ASSUME(a!=b); } else SYM_ASSUME(b==0);
		switch(op){
		case 0: SYM_ASSUME(fresh(has,a)); init(a,sym_choice(3,"len")); break;
		case 1: SYM_ASSUME(fresh(has,a)); new(v[a]) V(*(const V*)v[b]); has[a]=true; cloneRef(r,a,r[b]); break;
		case 2: SYM_ASSUME(fresh(has,a)); new(v[a]) V(*v[b]); has[a]=true; r[a]=r[b]; r[b].own=false; break;
		case 3: SYM_ASSUME(has[a]); *v[a]=*(const V*)v[b]; cloneRef(r,a,r[b]); break;
		case 4: SYM_ASSUME(has[a]&&!(a!=b&&r[a].own&&aliasOf(r,a,b))); *v[a]=*v[b]; if(a!=b) { Ref x=r[b]; drop(r,a); r[a]=x; r[b].own=false; } break;
		case 5: SYM_ASSUME(has[a]); v[a]->clone(*v[b]); cloneRef(r,a,r[b]); break;
		case 6: { SYM_ASSUME(fresh(has,a)); int c=sym_choice(S,"c"); SYM_ASSUME(has[c]&&attached(r,has,c)); new(v[a]) V(*(const V*)v[b],*(const V*)v[c]); has[a]=true; Ref x={newblk(r[b].len+r[c].len),0,r[b].len+r[c].len,true}; for(unsigned j=0;j<r[b].len;j++) mem[x.blk][j]=mem[r[b].blk][r[b].off+j]; for(unsigned j=0;j<r[c].len;j++) mem[x.blk][r[b].len+j]=mem[r[c].blk][r[c].off+j]; r[a]=x; break; }
		case 7: { SYM_ASSUME(fresh(has,a)); unsigned o=sym_choice(r[b].len+1,"off"), l=sym_choice(r[b].len-o+1,"span"); new(v[a]) V(v[b]->segment(o,l)); has[a]=true; r[a]=r[b]; r[a].own=false; r[a].off+=o; r[a].len=l; break; }
		case 8: { SYM_ASSUME(fresh(has,a)); unsigned o=sym_choice(r[b].len+1,"off"); if(sym_choice(2,"ht")){ new(v[a]) V(v[b]->tail(o)); r[a]=r[b]; r[a].off+=o; r[a].len-=o; } else { new(v[a]) V(v[b]->head(o)); r[a]=r[b]; r[a].len=o; } has[a]=true; r[a].own=false; break; }
		case 9: SYM_ASSUME(has[a]); { unsigned l=sym_choice(3,"len"); v[a]->resize(l); drop(r,a); r[a]={newblk(l),0,l,true}; for(unsigned j=0;j<l;j++) mem[r[a].blk][j]=v[a]->begin()[j]=(char)(j+1); break; }
		case 10: SYM_ASSUME(has[a]); v[a]->~V(); drop(r,a); has[a]=false; break;
		case 11: SYM_ASSUME(has[a]&&attached(r,has,a)&&r[a].len>0); { unsigned char x=sym<uint8_t>("x"); unsigned j=sym_choice(r[a].len,"at"); (*v[a])[j]=x; mem[r[a].blk][r[a].off+j]=x; break; }
		case 12: SYM_ASSUME(has[a]&&attached(r,has,a)); { unsigned char x=sym<uint8_t>("x"); v[a]->fill(x); for(unsigned j=0;j<r[a].len;j++) mem[r[a].blk][r[a].off+j]=x; break; }
		}
		checkAll(v,r,has);
	}
	for(int i=0;i<S;i++) if(has[i]) v[i]->~V();
	SYM_ASSERT(sym_live_blocks()==live,"storage leaked"); sym_reach("end");
}
static void segments(){
	unsigned n=sym_param("n",6); BitVector v((size_t)n); sym_bytes(v.begin(),n,"content"); size_t o=sym_concretize(sym_range(0,n+2,"off")), l=sym_concretize(sym_range(0,n+2,"span")); int kind=sym_choice(4,"kind"); bool in=o+l<=n;
	const BitVector&cv=v; Vector<int> w(n); w.fill(3); int64_t live=sym_live_blocks();
	int r=sym_try_f([&]{
		if(kind==0){ BitVector s=v.segment(o,l); SYM_ASSERT(s.size()==l&&s.begin()==v.begin()+o&&!s.isOwner(),"segment is not an alias of the named part"); }
		else if(kind==1){ BitVector s=cv.cloneSegment(o,l); SYM_ASSERT(s.size()==l&&(l==0||s.isOwner()),"cloned segment is not an owner"); bool ok=true; for(unsigned i=0;i<l;i++) ok&=s.begin()[i]==v.begin()[o+i]; SYM_ASSERT(ok,"cloned segment content"); if(l){ char c=v.begin()[o]; s[0]=~c; SYM_ASSERT(v.begin()[o]==c,"cloned segment shares storage"); } }
		else if(kind==2){ if(o) return; BitVector s=v.head(l); SYM_ASSERT(s.size()==l&&s.begin()==v.begin(),"head"); if(l<=n){ BitVector t=v.tail(l); SYM_ASSERT(t.size()==n-l&&t.begin()==v.begin()+l,"tail"); } }
		else { Vector<int> s=w.segment(o,l); SYM_ASSERT(s.size()==l&&s.begin()==w.begin()+o&&!s.isOwner(),"Vector segment is not an alias"); if(l){ s[l-1]=9; SYM_ASSERT(w[o+l-1]==9,"write through segment not seen by parent"); } }
	});
	if(kind==2&&o) sym_end();
	SYM_ASSERT(r==(in?0:1),"a segment outside the vector must be stopped, one inside not"); if(r==0) SYM_ASSERT(sym_live_blocks()==live,"segment leaked storage"); sym_reach(in?"done":"stopped");
}
static void copies(){
	unsigned n=sym_concretize(sym_range(0,sym_param("n",5),"n")), m=sym_concretize(sym_range(0,sym_param("n",5),"m")); Vector<unsigned char> a(n),b(m); unsigned char B[8]; sym_bytes(a.begin(),n,"a"); sym_bytes(b.begin(),m,"b"); for(unsigned i=0;i<m;i++) B[i]=b[i];
	size_t st=sym_concretize(sym_range(0,6,"start")), sp=sym_concretize(sym_range(0,6,"span")); int kind=sym_choice(4,"kind"); bool in=true; if(kind>=2) SYM_ASSUME(sp==0); if(kind==3) SYM_ASSUME(st==0);
	int r=sym_try_f([&]{ if(kind==0) a.copyToSegment(b,st,sp); else if(kind==1) a.segmentCopyTo(b,st,sp); else if(kind==2) a.copyToSegment(b,st); else a.copyTo(b); });
	if(kind==0) in=st+sp<=m&&sp<=n; else if(kind==1) in=st+sp<=n&&sp<=m; else { in=st+n<=m; sp=n; }
	SYM_ASSERT(r==(in?0:1),"a copy must be stopped exactly when it would leave one of the vectors"); bool ok=true;
	for(unsigned i=0;i<m;i++){ if(!in) ok&=b[i]==B[i]; else if(kind==1) ok&=b[i]==(i<sp?a[st+i]:B[i]); else ok&=b[i]==(i>=st&&i<st+sp?a[i-st]:B[i]); }
	SYM_ASSERT(ok,"copied content"); sym_reach(in?"done":"stopped");
}
static void fillpart(){
	unsigned n=sym_concretize(sym_range(0,sym_param("n",5),"n")); Vector<unsigned char> a(n); unsigned char A[8]; sym_bytes(a.begin(),n,"a"); for(unsigned i=0;i<n;i++) A[i]=a[i]; unsigned s=sym_concretize(sym_range(0,6,"start")), l=sym_concretize(sym_range(0,6,"len")); unsigned char x=sym<uint8_t>("x");
	int r=sym_try_f([&]{ a.fill(x,s,l); }); bool in=s+l<=n; SYM_ASSERT(r==(in?0:1),"partial fill must be stopped exactly when it leaves the vector"); bool ok=true; for(unsigned i=0;i<n;i++) ok&=a[i]==(in&&i>=s&&i<s+l?x:A[i]); SYM_ASSERT(ok,"fill content"); sym_reach(in?"done":"stopped");
}
static void bounds(){
	unsigned n=sym_concretize(sym_range(0,sym_param("n",4),"n")); BitVector b((size_t)n); b.fill(1); Vector<int> v(n); v.fill(1); SoftVector s((size_t)n); s.fill(1); const BitVector&cb=b; const Vector<int>&cv=v; size_t i=sym_concretize(sym_range(0,n+2,"i")); int kind=sym_choice(10,"kind"); volatile int t=0;
	int r=sym_try_f([&]{ switch(kind){ case 0: t=b[i]; break; case 1: t=cb[i]; break; case 2: t=b.bit(i); break; case 3: b.settfb(i,1); break; case 4: t=v[i]; break; case 5: t=cv[i]; break; case 6: t=s.bit(i); break; case 7: t=(int)s.softbit(i); break; case 8: s.settfb(i,1.0f); break; case 9: v[i]=2; break; } });
	SYM_ASSERT(r==(i<n?0:1),"an element access must be stopped exactly when it is outside the vector"); sym_reach(i<n?"in":"out");
}
static void selfassign(){
	unsigned n=sym_param("n",4); BitVector v((size_t)n); sym_bytes(v.begin(),n,"content"); char b[8]; for(unsigned i=0;i<n;i++) b[i]=v.begin()[i]; int64_t live=sym_live_blocks();
	BitVector&w=v; int kind=sym_choice(3,"kind"); if(kind==0) v=w; else if(kind==1) v.clone(w); else { BitVector e; v.vConcat(w,e); } SYM_ASSERT(v.size()==n,"self assignment changed the size"); bool ok=true; for(unsigned i=0;i<n;i++) ok&=v.begin()[i]==b[i]; SYM_ASSERT(ok,"assigning a vector to itself destroyed its content"); SYM_ASSERT(sym_live_blocks()==live,"self assignment leaked"); sym_reach("done");
}
static void clonealias(){	// cloning, concatenating and duplicating aliases
	unsigned n=sym_param("n",5); BitVector v((size_t)n); sym_bytes(v.begin(),n,"content"); size_t o=sym_concretize(sym_range(0,n,"off")), l=sym_concretize(sym_range(0,n-o,"span")); int64_t live=sym_live_blocks();
	{ BitVector s=v.segment(o,l), c; c.clone(s); SYM_ASSERT(c.size()==l&&(l==0||(c.isOwner()&&c.begin()!=s.begin())),"clone of an alias must own its storage"); bool ok=true; for(unsigned i=0;i<l;i++) ok&=c.begin()[i]==v.begin()[o+i]; SYM_ASSERT(ok,"clone content");
	  BitVector d; d.dup(v.segment(o,l)); SYM_ASSERT(d.size()==l&&d.begin()==s.begin()&&!d.isOwner(),"dup is not an alias"); BitVector e; (e.*(void(BitVector::*)(BitVector&))&BitVector::dup)(v); SYM_ASSERT(e.begin()==v.begin()&&e.size()==n&&v.isOwner()&&!e.isOwner(),"dup of an owner is not an alias");
	  BitVector cc(s,v); SYM_ASSERT(cc.size()==l+n,"concatenation size"); for(unsigned i=0;i<l+n;i++) ok&=cc.begin()[i]==(i<l?v.begin()[o+i]:v.begin()[i-l]); SYM_ASSERT(ok,"concatenation content");
	  BitVector f((size_t)2); f.fill(1); f.vConcat(s,s); SYM_ASSERT(f.size()==2*l,"vConcat size"); for(unsigned i=0;i<2*l;i++) ok&=f.begin()[i]==v.begin()[o+i%l]; SYM_ASSERT(ok,"vConcat content");
	  BitVector g((size_t)3); g.fill(1); g=s; SYM_ASSERT(g.size()==l&&g.begin()==s.begin()&&!g.isOwner(),"assigning an alias must give an alias"); }
	SYM_ASSERT(sym_live_blocks()==live,"storage leaked"); SYM_ASSERT(v.isOwner()&&v.size()==n,"parent changed"); sym_reach("done");
}
static void soft(){
	unsigned n=sym_param("n",4); int64_t live=sym_live_blocks(); { SoftVector s((size_t)n); for(unsigned i=0;i<n;i++) s[i]=(float)i; SoftVector a=s.alias(); SYM_ASSERT(a.begin()==s.begin()&&a.size()==n&&!a.isOwner(),"SoftVector alias"); size_t o=sym_concretize(sym_range(0,n,"off")); SoftVector t=s.tail(o),h=s.head(o); SYM_ASSERT(t.size()==n-o&&h.size()==o&&t.begin()==s.begin()+o&&h.begin()==s.begin(),"SoftVector head and tail");
	const SoftVector&cs=s; SoftVector c(cs); SYM_ASSERT(c.size()==n&&c.isOwner()&&c.begin()!=s.begin(),"const copy of a SoftVector is not a clone"); c[0]=7; SYM_ASSERT(s[0]==0.0f,"copy shares storage");
	SoftVector w(new float[2],2); SYM_ASSERT(w.size()==2,"wrapped block"); }
	SYM_ASSERT(sym_live_blocks()==live,"storage leaked"); sym_reach("done");
}
extern "C" void harness_main(void){ H(bitvec) H(vec) H(segments) H(copies) H(fillpart) H(bounds) H(selfassign) H(clonealias) H(soft) sym_fail("unknown case"); }
