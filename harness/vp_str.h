/* str.c itself, with every text kept in one block of VP_STRCAP bytes instead of an exactly fitting one:
 * for modules that build texts byte by byte (str.c's own storage handling is S01's business). */
#ifndef VP_STRCAP
#define VP_STRCAP 16
#endif
#include "str/str.h"
#ifdef VP_CBMC
#define vp_bound(c) do{ __CPROVER_assert((c), "VP bound on texts"); __CPROVER_assume(c); }while(0)
#else
#define vp_bound(c) vp_assume(c)
#endif
static uint8_t *vp_fixed_resize(uint8_t *cstr, size_t bytes, size_t *len, size_t new_size){
	vp_bound(bytes==1 && new_size < VP_STRCAP);
	if( cstr==NULL ) {
		cstr = calloc(VP_STRCAP, 1);
		if( cstr==NULL ) return NULL;
	} else {
#ifdef VP_STRSTEP	/* texts that only ever grow by one byte */
		vp_bound(new_size==*len + 1);
		cstr[*len] = 0; cstr[new_size] = 0;
#else
		if( new_size==*len + 1 ) { cstr[*len] = 0; cstr[new_size] = 0; }
		else if( new_size > *len ) { for( size_t i=0; i<VP_STRCAP; i++ ) if( i>=*len && i<=new_size ) cstr[i] = 0; }
#endif
	}
	*len = new_size;
	return cstr;
}
#define harbol_resize_string vp_fixed_resize
#include "str/str.c"
#undef harbol_resize_string

/* an empty text that has its block already: keeps the solver's formula small */
static inline struct HarbolString vp_str_ready(void){ return (struct HarbolString){ .cstr = calloc(VP_STRCAP, 1), .len = 0 }; }
