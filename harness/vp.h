/* Common harness vocabulary. The same harness text is used twice:
 *  - under CBMC (VP_CBMC): every vp_u64()/vp_u8() is a fresh symbolic value,
 *  - natively (replay): vp_u64() reads the solver's values back, in order, from a file.
 * All allocation in /repo sources and harnesses goes through vp_malloc & co (vp_wrap.h). */
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <string.h>

#ifdef VP_CBMC
uint64_t nondet_vp_u64(void); uint8_t nondet_vp_u8(void);
extern uint64_t vp_log;
static inline uint64_t vp_u64(void){ vp_log = nondet_vp_u64(); return vp_log; }
static inline uint8_t vp_u8(void){ uint8_t v = nondet_vp_u8(); vp_log = v; return v; }
#define vp_assume(c)     __CPROVER_assume(c)
#define vp_assert(c,msg) __CPROVER_assert((c), "VP " msg)
/* reachability witness: the solver must find a run that gets here */
#define vp_reach(msg)    __CPROVER_assert(0, "REACH " msg)
#elif defined(VP_SX)
/* path-wise symbolic execution (engine/sx.cpp): the engine provides these */
uint64_t vp_u64(void); uint8_t vp_u8(void);
void sx_assume(int); void sx_assert(int, char const *); void sx_reach(char const *); uint64_t sx_pick(uint64_t); uint64_t sx_choose(uint64_t, uint64_t);
#define vp_assume(c)     sx_assume((c)? 1 : 0)
#define vp_assert(c,msg) sx_assert((c)? 1 : 0, msg)
#define vp_reach(msg)    sx_reach(msg)
#else
#include <stdio.h>
#include <stdlib.h>
uint64_t vp_u64(void);
static inline uint8_t vp_u8(void){ return (uint8_t)vp_u64(); }
void vp_fail(char const *msg, char const *file, int line);
void vp_infeasible(void);
#define vp_assume(c)     do{ if(!(c)) vp_infeasible(); }while(0)
#define vp_assert(c,msg) do{ if(!(c)) vp_fail(msg,__FILE__,__LINE__); }while(0)
#define vp_reach(msg)    ((void)0)
#endif

/* value in [lo,hi] */
static inline uint64_t vp_range(uint64_t lo, uint64_t hi){ uint64_t v=vp_u64(); vp_assume(v>=lo && v<=hi); return v; }
/* the same, every value followed on a path of its own by the path-wise engine */
#ifdef VP_SX
static inline uint64_t vp_pick(uint64_t lo, uint64_t hi){ return sx_choose(lo, hi); }
#else
static inline uint64_t vp_pick(uint64_t lo, uint64_t hi){ return vp_range(lo, hi); }
#endif
static inline bool vp_bool(void){ return (vp_u8()&1)!=0; }

/* k-th unknown number: opaque to the path-wise engine (operations on it are uninterpreted), a small prime when replayed */
#ifdef VP_SX
long double sx_float(uint64_t); int sx_feq(long double, long double);
static inline long double vp_float(uint64_t k){ return sx_float(k); }
static inline bool vp_feq(long double a, long double b){ return sx_feq(a, b); }
#elif !defined(VP_CBMC)
static inline long double vp_float(uint64_t k){ static int const p[] = {7,2,3,5,11,13,17,19,23,29,31}; return p[k%11]; }
static inline bool vp_feq(long double a, long double b){ return a==b || (a!=a && b!=b); }
#endif

/* allocator model */
extern int    vp_alloc_may_fail;   /* 0: never (except absurd sizes); 1: each request may fail, solver's choice */
extern size_t vp_live;             /* blocks currently allocated */
extern size_t vp_failed;           /* requests refused so far */
#ifndef VP_MAXALLOC
#define VP_MAXALLOC ((size_t)1<<20)  /* larger requests are always refused */
#endif
void *vp_malloc(size_t);
void *vp_calloc(size_t, size_t);
void *vp_realloc(void *, size_t);
void  vp_free(void *);
#endif
