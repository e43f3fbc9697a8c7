// Models of the parts of libstdc++ that live in the shared library: red-black tree and list primitives, exception classes, throw helpers.
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <string>
#include <map>
#include <list>
#include <functional>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
extern "C" void* malloc(size_t); extern "C" void free(void*);
namespace std {
// ---- red-black tree (as in libstdc++ src/c++98/tree.cc, same algorithm and same resulting shapes)
typedef _Rb_tree_node_base* BP; typedef const _Rb_tree_node_base* CBP;
static BP rbInc(BP x) throw(){ if(x->_M_right){ x=x->_M_right; while(x->_M_left) x=x->_M_left; } else { BP y=x->_M_parent; while(x==y->_M_right){ x=y; y=y->_M_parent; } if(x->_M_right!=y) x=y; } return x; }
static BP rbDec(BP x) throw(){ if(x->_M_color==_S_red&&x->_M_parent->_M_parent==x) x=x->_M_right; else if(x->_M_left){ BP y=x->_M_left; while(y->_M_right) y=y->_M_right; x=y; } else { BP y=x->_M_parent; while(x==y->_M_left){ x=y; y=y->_M_parent; } x=y; } return x; }
BP _Rb_tree_increment(BP x) throw(){ return rbInc(x); } CBP _Rb_tree_increment(CBP x) throw(){ return rbInc(const_cast<BP>(x)); } BP _Rb_tree_decrement(BP x) throw(){ return rbDec(x); } CBP _Rb_tree_decrement(CBP x) throw(){ return rbDec(const_cast<BP>(x)); }
static void rotL(BP const x,BP&root){ BP const y=x->_M_right; x->_M_right=y->_M_left; if(y->_M_left) y->_M_left->_M_parent=x; y->_M_parent=x->_M_parent; if(x==root) root=y; else if(x==x->_M_parent->_M_left) x->_M_parent->_M_left=y; else x->_M_parent->_M_right=y; y->_M_left=x; x->_M_parent=y; }
static void rotR(BP const x,BP&root){ BP const y=x->_M_left; x->_M_left=y->_M_right; if(y->_M_right) y->_M_right->_M_parent=x; y->_M_parent=x->_M_parent; if(x==root) root=y; else if(x==x->_M_parent->_M_right) x->_M_parent->_M_right=y; else x->_M_parent->_M_left=y; y->_M_right=x; x->_M_parent=y; }
void _Rb_tree_insert_and_rebalance(const bool left,BP x,BP p,_Rb_tree_node_base&h) throw(){ BP&root=h._M_parent; x->_M_parent=p; x->_M_left=0; x->_M_right=0; x->_M_color=_S_red;
  if(left){ p->_M_left=x; if(p==&h){ h._M_parent=x; h._M_right=x; } else if(p==h._M_left) h._M_left=x; } else { p->_M_right=x; if(p==h._M_right) h._M_right=x; }
  while(x!=root&&x->_M_parent->_M_color==_S_red){ BP const g=x->_M_parent->_M_parent; if(x->_M_parent==g->_M_left){ BP const y=g->_M_right; if(y&&y->_M_color==_S_red){ x->_M_parent->_M_color=_S_black; y->_M_color=_S_black; g->_M_color=_S_red; x=g; } else { if(x==x->_M_parent->_M_right){ x=x->_M_parent; rotL(x,root); } x->_M_parent->_M_color=_S_black; g->_M_color=_S_red; rotR(g,root); } }
    else { BP const y=g->_M_left; if(y&&y->_M_color==_S_red){ x->_M_parent->_M_color=_S_black; y->_M_color=_S_black; g->_M_color=_S_red; x=g; } else { if(x==x->_M_parent->_M_left){ x=x->_M_parent; rotR(x,root); } x->_M_parent->_M_color=_S_black; g->_M_color=_S_red; rotL(g,root); } } } root->_M_color=_S_black; }
static BP mn(BP x){ while(x->_M_left) x=x->_M_left; return x; } static BP mx(BP x){ while(x->_M_right) x=x->_M_right; return x; }
BP _Rb_tree_rebalance_for_erase(BP const z,_Rb_tree_node_base&h) throw(){ BP&root=h._M_parent; BP&lm=h._M_left; BP&rm=h._M_right; BP y=z; BP x=0; BP xp=0;
  if(y->_M_left==0) x=y->_M_right; else if(y->_M_right==0) x=y->_M_left; else { y=y->_M_right; while(y->_M_left) y=y->_M_left; x=y->_M_right; }
  if(y!=z){ z->_M_left->_M_parent=y; y->_M_left=z->_M_left; if(y!=z->_M_right){ xp=y->_M_parent; if(x) x->_M_parent=y->_M_parent; y->_M_parent->_M_left=x; y->_M_right=z->_M_right; z->_M_right->_M_parent=y; } else xp=y; if(root==z) root=y; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=y; else z->_M_parent->_M_right=y; y->_M_parent=z->_M_parent; std::swap(y->_M_color,z->_M_color); y=z; }
  else { xp=y->_M_parent; if(x) x->_M_parent=y->_M_parent; if(root==z) root=x; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=x; else z->_M_parent->_M_right=x; if(lm==z){ if(z->_M_right==0) lm=z->_M_parent; else lm=mn(x); } if(rm==z){ if(z->_M_left==0) rm=z->_M_parent; else rm=mx(x); } }
  if(y->_M_color!=_S_red){ while(x!=root&&(x==0||x->_M_color==_S_black)) if(x==xp->_M_left){ BP w=xp->_M_right; if(w->_M_color==_S_red){ w->_M_color=_S_black; xp->_M_color=_S_red; rotL(xp,root); w=xp->_M_right; } if((w->_M_left==0||w->_M_left->_M_color==_S_black)&&(w->_M_right==0||w->_M_right->_M_color==_S_black)){ w->_M_color=_S_red; x=xp; xp=xp->_M_parent; } else { if(w->_M_right==0||w->_M_right->_M_color==_S_black){ w->_M_left->_M_color=_S_black; w->_M_color=_S_red; rotR(w,root); w=xp->_M_right; } w->_M_color=xp->_M_color; xp->_M_color=_S_black; if(w->_M_right) w->_M_right->_M_color=_S_black; rotL(xp,root); break; } }
    else { BP w=xp->_M_left; if(w->_M_color==_S_red){ w->_M_color=_S_black; xp->_M_color=_S_red; rotR(xp,root); w=xp->_M_left; } if((w->_M_right==0||w->_M_right->_M_color==_S_black)&&(w->_M_left==0||w->_M_left->_M_color==_S_black)){ w->_M_color=_S_red; x=xp; xp=xp->_M_parent; } else { if(w->_M_left==0||w->_M_left->_M_color==_S_black){ w->_M_right->_M_color=_S_black; w->_M_color=_S_red; rotL(w,root); w=xp->_M_left; } w->_M_color=xp->_M_color; xp->_M_color=_S_black; if(w->_M_left) w->_M_left->_M_color=_S_black; rotR(xp,root); break; } } if(x) x->_M_color=_S_black; }
  return y; }
// ---- list nodes
namespace __detail { void _List_node_base::_M_hook(_List_node_base*const p) noexcept { this->_M_next=p; this->_M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; } void _List_node_base::_M_unhook() noexcept { _List_node_base*const n=this->_M_next,*const p=this->_M_prev; p->_M_next=n; n->_M_prev=p; }
void _List_node_base::_M_transfer(_List_node_base*const f,_List_node_base*const l) noexcept { if(this!=l){ l->_M_prev->_M_next=this; f->_M_prev->_M_next=l; this->_M_prev->_M_next=f; _List_node_base*const t=this->_M_prev; this->_M_prev=l->_M_prev; l->_M_prev=f->_M_prev; f->_M_prev=t; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base*t=this; do{ std::swap(t->_M_next,t->_M_prev); t=t->_M_prev; }while(t!=this); }
void _List_node_base::swap(_List_node_base&x,_List_node_base&y) noexcept { if(x._M_next!=&x){ if(y._M_next!=&y){ std::swap(x._M_next,y._M_next); std::swap(x._M_prev,y._M_prev); x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next->_M_prev=y._M_prev->_M_next=&y; } else { y._M_next=x._M_next; y._M_prev=x._M_prev; y._M_next->_M_prev=y._M_prev->_M_next=&y; x._M_next=x._M_prev=&x; } } else if(y._M_next!=&y){ x._M_next=y._M_next; x._M_prev=y._M_prev; x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next=y._M_prev=&y; } } }
// ---- exceptions
exception::~exception() noexcept {} const char*exception::what() const noexcept { return "std::exception"; } bad_exception::~bad_exception() noexcept {} const char*bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {} const char*bad_alloc::what() const noexcept { return "std::bad_alloc"; } bad_array_new_length::~bad_array_new_length() noexcept {} const char*bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; } bad_cast::~bad_cast() noexcept {} const char*bad_cast::what() const noexcept { return "std::bad_cast"; } bad_typeid::~bad_typeid() noexcept {} const char*bad_typeid::what() const noexcept { return "std::bad_typeid"; } bad_function_call::~bad_function_call() noexcept {} const char*bad_function_call::what() const noexcept { return "bad_function_call"; }
static char*dupS(const char*p,size_t n){ char*r=(char*)malloc(n+1); memcpy(r,p,n); r[n]=0; return r; }
__cow_string::__cow_string():_M_p(dupS("",0)){} __cow_string::__cow_string(const std::string&s):_M_p(dupS(s.data(),s.size())){} __cow_string::__cow_string(const char*s,size_t n):_M_p(dupS(s,n)){} __cow_string::__cow_string(const __cow_string&o) noexcept:_M_p(dupS(o._M_p,strlen(o._M_p))){} __cow_string& __cow_string::operator=(const __cow_string&o) noexcept { if(this!=&o){ free((void*)_M_p); _M_p=dupS(o._M_p,strlen(o._M_p)); } return *this; } __cow_string::~__cow_string(){ free((void*)_M_p); } __cow_string::__cow_string(__cow_string&&o) noexcept:_M_p(dupS(o._M_p,strlen(o._M_p))){} __cow_string& __cow_string::operator=(__cow_string&&o) noexcept { std::swap(_M_p,o._M_p); return *this; }
#define EXC(C) C::C(const string&s):_M_msg(s){} C::C(const char*s):_M_msg(s,strlen(s)){} C::C(const C&o) noexcept:exception(),_M_msg(o._M_msg){} C& C::operator=(const C&o) noexcept { _M_msg=o._M_msg; return *this; } C::C(C&&o) noexcept:_M_msg(o._M_msg){} C& C::operator=(C&&o) noexcept { _M_msg=o._M_msg; return *this; } C::~C() noexcept {} const char*C::what() const noexcept { return _M_msg._M_p; }
EXC(logic_error) EXC(runtime_error)
#define EXD(C,B) C::C(const string&s):B(s){} C::C(const char*s):B(s){} C::~C() noexcept {}
EXD(domain_error,logic_error) EXD(invalid_argument,logic_error) EXD(length_error,logic_error) EXD(out_of_range,logic_error) EXD(range_error,runtime_error) EXD(overflow_error,runtime_error) EXD(underflow_error,runtime_error)
void __throw_logic_error(const char*s){ throw logic_error(s); } void __throw_domain_error(const char*s){ throw domain_error(s); } void __throw_invalid_argument(const char*s){ throw invalid_argument(s); } void __throw_length_error(const char*s){ throw length_error(s); } void __throw_out_of_range(const char*s){ throw out_of_range(s); } void __throw_out_of_range_fmt(const char*s,...){ throw out_of_range(s); } void __throw_runtime_error(const char*s){ throw runtime_error(s); } void __throw_range_error(const char*s){ throw range_error(s); } void __throw_overflow_error(const char*s){ throw overflow_error(s); } void __throw_bad_alloc(){ throw bad_alloc(); } void __throw_bad_array_new_length(){ throw bad_array_new_length(); } void __throw_bad_cast(){ throw bad_cast(); } void __throw_bad_function_call(){ throw bad_function_call(); } void __throw_bad_typeid(){ throw bad_typeid(); }
// ---- hashing
size_t _Hash_bytes(const void*p,size_t n,size_t seed){ const unsigned char*s=(const unsigned char*)p; size_t h=seed^(n*0xc6a4a7935bd1e995ull); for(size_t i=0;i<n;i++) h=(h*31)+s[i]; return h; }
namespace __detail { size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t r=n<13?13:n|1; _M_next_resize=(size_t)r; return r; } pair<bool,size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb,size_t ne,size_t ni) const { if(ne+ni>_M_next_resize){ size_t w=ne+ni>nb*2?ne+ni:nb*2; if(w>=nb) return pair<bool,size_t>(true,_M_next_bkt(w+1)); _M_next_resize=nb; } return pair<bool,size_t>(false,0); } }
}
extern "C" { void __sx_out(int,const char*,unsigned long){} char __libc_single_threaded=0; void*__dso_handle=0; }
