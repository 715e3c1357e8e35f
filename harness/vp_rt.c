/* runtime for both worlds; compiled WITHOUT vp_wrap.h */
#include "vp.h"
#include <stdlib.h>
int    vp_alloc_may_fail;
size_t vp_live;
size_t vp_failed;
#ifdef VP_CBMC
uint64_t vp_log;
#elif defined(VP_SX)
#else
#include <stdio.h>
#include <unistd.h>
static FILE *vp_in;
uint64_t vp_u64(void){
	char buf[64];
	if( vp_in==NULL || fgets(buf, sizeof buf, vp_in)==NULL ) return 0;
	return strtoull(buf, NULL, 0);
}
void vp_fail(char const *msg, char const *file, int line){
	fprintf(stderr, "VP-ASSERT %s (%s:%d)\n", msg, file, line);
	fflush(stderr); _exit(99);
}
void vp_infeasible(void){ fprintf(stderr, "VP-INFEASIBLE\n"); fflush(stderr); _exit(77); }
#ifdef VP_ENTRY
void VP_ENTRY(void);
int main(int argc, char **argv){
	if( argc > 1 ) vp_in = fopen(argv[1], "r");
	VP_ENTRY();
	fprintf(stderr, "VP-DONE\n");
	return 0;
}
#endif
#endif
int vp_randmask = 0x7fffffff;
int vp_rand(void){ return (int)(vp_u64() & vp_randmask); }
static bool refuse(size_t n){
	if( n > VP_MAXALLOC ) return true;
	if( vp_alloc_may_fail && vp_bool() ) { vp_failed++; return true; }
	return false;
}
#if defined(VP_CBMC) && defined(VP_SPLITALLOC)
/* blocks of symbolic size are chosen among concrete sizes 0..VP_SPLITALLOC (larger ones: the check fails as out of bounds) */
static void *raw_alloc(size_t n, bool zero){
	vp_assert(n <= VP_SPLITALLOC, "bound on the size of allocated blocks");
	vp_assume(n <= VP_SPLITALLOC);
	for( size_t k=0; k<VP_SPLITALLOC; k++ ) if( n==k ) return zero? calloc(k, 1) : malloc(k);
	return zero? calloc(VP_SPLITALLOC, 1) : malloc(VP_SPLITALLOC);
}
#else
#define raw_alloc(n, zero) ((zero)? calloc((n), 1) : malloc(n))
#endif
void *vp_malloc(size_t n){
	if( refuse(n) ) return NULL;
	void *p = raw_alloc(n, false);
	vp_assume(p != NULL);
	vp_live++; return p;
}
void *vp_calloc(size_t n, size_t s){
	if( s != 0 && n > VP_MAXALLOC / s ) return NULL;
	if( refuse(n * s) ) return NULL;
#if defined(VP_CBMC) && defined(VP_SPLITALLOC)
	void *p = raw_alloc(n * s, true);
#else
	void *p = calloc(n, s);
#endif
	vp_assume(p != NULL);
	vp_live++; return p;
}
void *vp_realloc(void *q, size_t n){
	if( q==NULL ) return vp_malloc(n);
	if( n==0 ) { free(q); vp_live--; return NULL; }  /* glibc */
	if( refuse(n) ) return NULL;
#if defined(VP_CBMC) && defined(VP_OWNREALLOC)
	/* CBMC's realloc loses contents when shrinking; byte copy up to VP_OWNREALLOC bytes instead */
	vp_assert(__CPROVER_DYNAMIC_OBJECT(q) && __CPROVER_POINTER_OFFSET(q)==0, "realloc of a pointer that is not the start of a block");
	size_t const old = __CPROVER_OBJECT_SIZE(q), m = old<n? old : n;
	uint8_t *p = raw_alloc(n, false);
	vp_assume(p != NULL);
	vp_assert(m <= VP_OWNREALLOC, "bound on reallocated blocks");
	for( size_t i=0; i<VP_OWNREALLOC; i++ ) if( i<m ) p[i] = ((uint8_t*)q)[i];
	free(q);
#else
	void *p = realloc(q, n);
	vp_assume(p != NULL);
#endif
	return p;
}
void vp_free(void *p){
	if( p != NULL ) vp_live--;
	free(p);
}

#if defined(VP_CBMC) && defined(VP_LOOPMEM) && !defined(VP_OWNMEM)
/* whole words first (keeps stored pointers intact), then the tail bytes */
void *vp_memmove(void *d, void const *s, size_t n){
	size_t const w = n / sizeof(void*), t = n % sizeof(void*);
	void **dw = d; void *const *sw = s;
	if( __CPROVER_same_object(d, s) && __CPROVER_POINTER_OFFSET(d) > __CPROVER_POINTER_OFFSET(s) ) {
		for( size_t i=n; i>n-t; i-- ) ((uint8_t*)d)[i-1] = ((uint8_t const*)s)[i-1];
		for( size_t i=w; i>0; i-- ) dw[i-1] = sw[i-1];
	} else {
		for( size_t i=0; i<w; i++ ) dw[i] = sw[i];
		for( size_t i=n-t; i<n; i++ ) ((uint8_t*)d)[i] = ((uint8_t const*)s)[i];
	}
	return d;
}
void *vp_memcpy(void *d, void const *s, size_t n){
	vp_assert(!__CPROVER_same_object(d, s) || n==0
		|| __CPROVER_POINTER_OFFSET(d) + n <= __CPROVER_POINTER_OFFSET(s)
		|| __CPROVER_POINTER_OFFSET(s) + n <= __CPROVER_POINTER_OFFSET(d), "memcpy between overlapping ranges");
	size_t const w = n / sizeof(void*), t = n % sizeof(void*);
	void **dw = d; void *const *sw = s;
	for( size_t i=0; i<w; i++ ) dw[i] = sw[i];
	for( size_t i=n-t; i<n; i++ ) ((uint8_t*)d)[i] = ((uint8_t const*)s)[i];
	return d;
}
void *vp_memset(void *d, int c, size_t n){
	if( c==0 ) {
		size_t const w = n / sizeof(void*), t = n % sizeof(void*);
		void **dw = d;
		for( size_t i=0; i<w; i++ ) dw[i] = NULL;
		for( size_t i=n-t; i<n; i++ ) ((uint8_t*)d)[i] = 0;
	} else {
		for( size_t i=0; i<n; i++ ) ((uint8_t*)d)[i] = (uint8_t)c;
	}
	return d;
}
#endif
