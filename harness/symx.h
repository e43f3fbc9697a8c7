// Harness interface: symbolic inputs, assumptions, assertions.  Implemented by the symbolic executor and, for replay, by native/runtime.cpp.
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
uint64_t sym_uint_(int bits,const char*name); void sym_bytes(void*p,size_t n,const char*name); int sym_choice(int n,const char*name);
void sym_assume_(int c); void sym_assert_(int c,const char*msg); [[noreturn]] void sym_fail(const char*msg); void sym_reach(const char*label); [[noreturn]] void sym_end(void);
void sym_observe(const char*name,uint64_t v); int64_t sym_param(const char*name,int64_t def); uint64_t sym_concretize(uint64_t v); int64_t sym_live_blocks(void); int sym_try(void(*fn)(void*),void*arg);
void sym_print(const char*label,uint64_t v); void sym_prints(const char*label,const char*s); int sym_is_native(void);
int __sx_mem_symbolic(const void*,unsigned long); uint64_t __sx_ite(int c,uint64_t a,uint64_t b);
void harness_main(void);
}
#define SYM_ASSUME(c) sym_assume_((int)!!(c))
#define SYM_ASSERT(c,msg) sym_assert_((int)!!(c),msg)
template<class T> static inline T sym(const char*name){ return (T)sym_uint_(sizeof(T)*8,name); }
template<> inline bool sym<bool>(const char*name){ return (bool)(sym_uint_(1,name)&1); }
static inline uint64_t sym_bits(int bits,const char*name){ return sym_uint_(bits,name); }
// an integer in [lo,hi], symbolic
static inline int64_t sym_range(int64_t lo,int64_t hi,const char*name){ int64_t v=(int64_t)sym_uint_(64,name); SYM_ASSUME((v>=lo)&(v<=hi)); return v; }
static inline double sym_f64(const char*name){ uint64_t u=sym_uint_(64,name); double d; __builtin_memcpy(&d,&u,8); return d; }
static inline float sym_f32(const char*name){ uint32_t u=(uint32_t)sym_uint_(32,name); float d; __builtin_memcpy(&d,&u,4); return d; }
// run f; 0 = returned, 1 = assertion/abort, 2 = exit
template<class F> static inline int sym_try_f(F f){ struct L{ static void run(void*p){ (*(F*)p)(); } }; return sym_try(L::run,&f); }

// case dispatch: check.py passes the hash of the case's function name (the part of the case name before the first '.', or f=...)
static inline constexpr uint32_t sym_fnv(const char*s){ uint32_t h=0x811c9dc5u; for(;*s;s++) h=(h^(unsigned char)*s)*0x01000193u; return h; }
#define H(name) if(sym_param("__f",0)==(int64_t)sym_fnv(#name)){ name(); return; }
