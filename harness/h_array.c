// HarbolArray: one arbitrary operation from an arbitrary valid state, against a plain sequence model.
// A valid state: a table of cap*DS bytes, len <= cap, arbitrary contents.  One step from every valid
// state, ending in a valid state, covers histories of any length (within CAP elements of DS bytes).
//@src array/array.c
#include "vp.h"
#include "array/array.h"
#ifndef CAP
#define CAP 5
#endif
#ifndef DS
#define DS 1
#endif
typedef struct { uint8_t b[DS]; } elem;

static struct HarbolArray A;      /* under test */
static elem   ref[CAP+1];         /* model */
static size_t rlen, rcap;

static elem any_elem(void){ elem e; for(unsigned i=0;i<DS;i++) e.b[i]=vp_u8(); return e; }
static bool eq(elem const *a, void const *b){ uint8_t const *q=b; for(unsigned i=0;i<DS;i++) if(a->b[i]!=q[i]) return false; return true; }

static struct HarbolArray any_array(elem model[], size_t maxcap){
	struct HarbolArray v = {0};
	v.cap = maxcap;
	v.len = vp_range(0, v.cap);
	v.table = vp_calloc(v.cap, DS);
	for( size_t i=0; i<maxcap; i++ ) if( i < v.cap ) {
		elem e = any_elem();
		for( unsigned k=0; k<DS; k++ ) v.table[i*DS+k] = e.b[k];
		if( i < v.len ) model[i] = e;
	}
	return v;
}
static void setup(void){ A = any_array(ref, CAP); rlen = A.len; rcap = A.cap; }

/* structure still valid and contents equal the model's first rlen elements */
static void same(void){
	vp_assert(A.len == rlen, "length differs from the sequence model");
	vp_assert(A.len <= A.cap, "length exceeds capacity");
	size_t j = vp_u64();
	if( j < rlen ) {
		void *p = harbol_array_get(&A, j, DS);
		vp_assert(p != NULL && p == A.table + j*DS, "element in range is not addressable");
		vp_assert(eq(&ref[j], p), "element differs from the sequence model");
	} else {
		vp_assert(harbol_array_get(&A, j, DS)==NULL, "get past the end yields an element");
	}
}
static void ref_del(size_t idx, size_t n){
	for( size_t i=0; i<CAP; i++ ) if( i >= idx && i+n < rlen ) ref[i] = ref[i+n];
	rlen -= n;
}

//@job C01 func=H_arr_ends unwind=8 defs=DS=1
//@job C01 func=H_arr_ends unwind=8 defs=DS=3
void H_arr_ends(void){
	setup();
	elem e = any_elem(), out = any_elem();
	switch( vp_u8() ) {
	case 0: {
		bool r = harbol_array_insert(&A, &e, DS);
		vp_assert(r == (rlen < rcap), "insert must succeed exactly when there is room");
		if( r ) { ref[rlen++] = e; vp_reach("insert"); }
		break;
	}
	case 1: {
		size_t r = harbol_array_append(&A, &e, DS);
		vp_assert((r != SIZE_MAX) == (rlen < rcap), "append must succeed exactly when there is room");
		if( r != SIZE_MAX ) { vp_assert(r == rlen, "append index"); ref[rlen++] = e; vp_reach("append"); }
		break;
	}
	case 2: {
		void *p = harbol_array_pop(&A, DS);
		vp_assert((p != NULL) == (rlen > 0), "pop on non-empty");
		if( p ) { vp_assert(eq(&ref[rlen-1], p), "popped element is the last one"); rlen--; vp_reach("pop"); }
		break;
	}
	case 3: {
		bool r = harbol_array_pop_ex(&A, &out, DS);
		vp_assert(r == (rlen > 0), "pop_ex on non-empty");
		if( r ) { vp_assert(eq(&ref[rlen-1], &out), "pop_ex element is the last one"); rlen--; vp_reach("pop_ex"); }
		break;
	}
	case 4: {
		void *p = harbol_array_peek(&A, DS);
		vp_assert((p != NULL) == (rlen > 0), "peek on non-empty");
		if( p ) vp_assert(eq(&ref[rlen-1], p), "peek is the last one");
		break;
	}
	case 5: {
		bool r = harbol_array_peek_ex(&A, &out, DS);
		vp_assert(r == (rlen > 0), "peek_ex on non-empty");
		if( r ) vp_assert(eq(&ref[rlen-1], &out), "peek_ex is the last one");
		break;
	}
	case 6: {
		harbol_array_wipe(&A, DS); rlen = 0;
		size_t j = vp_u64();
		if( j < rcap*DS ) vp_assert(A.table[j]==0, "wipe zeroes the storage");
		break;
	}
	default: {
		bool r = harbol_array_fill(&A, &e, DS);
		vp_assert(r, "fill");
		for( size_t i=0; i<CAP; i++ ) ref[i] = e;
		rlen = rcap;
		vp_reach("fill");
	}
	}
	vp_assert(A.cap == rcap, "capacity changed");
	vp_assert(harbol_array_len(&A)==A.len && harbol_array_cap(&A)==A.cap, "getters");
	vp_assert(harbol_array_empty(&A)==(A.len==0 || A.cap==0), "empty");
	vp_assert(harbol_array_full(&A)==(A.len==A.cap), "full");
	same();
}

//@job C01 func=H_arr_index unwind=8 defs=DS=1
//@job C01 func=H_arr_index unwind=8 defs=DS=3
void H_arr_index(void){
	setup();
	elem e = any_elem(), out = any_elem();
	size_t i = vp_u64();
	switch( vp_u8() ) {
	case 0: {
		bool r = harbol_array_set(&A, i, &e, DS);
		vp_assert(r == (i < rlen), "set must succeed exactly for an index in range");
		if( r ) { ref[i] = e; vp_reach("set"); }
		break;
	}
	case 1: {
		bool r = harbol_array_get_ex(&A, i, &out, DS);
		vp_assert(r == (i < rlen), "get_ex must succeed exactly for an index in range");
		if( r ) { vp_assert(eq(&ref[i], &out), "get_ex value"); vp_reach("get_ex"); }
		break;
	}
	case 2: {
		size_t start = vp_u64();
		size_t r = harbol_array_index_of(&A, &e, DS, start);
		size_t want = SIZE_MAX;
		for( size_t k=CAP; k-->0; ) if( k >= start && k < rlen && eq(&ref[k], &e) ) want = k;
		vp_assert(r == want, "index_of is the first occurrence from the start index");
		if( r != SIZE_MAX && r > start ) vp_reach("index_of");
		break;
	}
	case 3: {
		size_t want = 0;
		for( size_t k=0; k<CAP; k++ ) if( k < rlen && eq(&ref[k], &e) ) want++;
		vp_assert(harbol_array_item_count(&A, &e, DS)==want, "item_count");
		break;
	}
	default: {
		bool r = harbol_array_swap(&A, DS);
		vp_assert(r, "swap");
		for( size_t k=0; k<CAP; k++ ) if( k < rlen/2 ) { elem t = ref[k]; ref[k] = ref[rlen-1-k]; ref[rlen-1-k] = t; }
		vp_reach("swap");
	}
	}
	vp_assert(A.cap == rcap, "capacity changed");
	same();
}

//@job C01 func=H_arr_del unwind=8 defs=DS=1
//@job C01 func=H_arr_del unwind=8 defs=DS=3,CAP=4
void H_arr_del(void){
	setup();
	elem e = any_elem();
	size_t i = vp_u64(), n = vp_u64();
	switch( vp_u8() ) {
	case 0: {
		bool r = harbol_array_del_by_index(&A, i, DS);
		vp_assert(r == (i < rlen), "del_by_index must succeed exactly for an index in range");
		if( r ) { ref_del(i, 1); vp_reach("del_by_index"); }
		break;
	}
	case 1: case 2: {
		bool r;
		if( vp_bool() ) {
			r = harbol_array_del_by_range(&A, i, DS, n);
		} else {
			r = harbol_array_shift_up(&A, i, DS, n);
		}
		if( i < rlen ) {
			size_t m = n==0? 1 : n;
			if( m > rlen - i ) m = rlen - i;
			vp_assert(r, "range delete in range");
			ref_del(i, m);
			vp_reach("del_by_range");
		} else if( rlen > 0 ) {
			vp_assert(!r, "range delete past the end must fail");
		}
		break;
	}
	default: {
		size_t want = SIZE_MAX;
		for( size_t k=CAP; k-->0; ) if( k < rlen && eq(&ref[k], &e) ) want = k;
		bool r = harbol_array_del_by_val(&A, &e, DS);
		vp_assert(r == (want != SIZE_MAX), "del_by_val must succeed exactly when present");
		if( r ) { ref_del(want, 1); vp_reach("del_by_val"); }
	}
	}
	vp_assert(A.cap == rcap, "capacity changed");
	same();
}

//@job C01 func=H_arr_join unwind=8 defs=DS=1,CAP=4
//@job C01 func=H_arr_join unwind=8 defs=DS=2,CAP=4
void H_arr_join(void){
	setup();
	elem rb[CAP+1];
	struct HarbolArray B = any_array(rb, CAP);
	size_t const blen = B.len, bcap = B.cap;
	size_t const d = rlen > blen ? rlen-blen : blen-rlen;
	vp_assert(harbol_array_len_diff(&A, &B)==d, "len_diff");
	vp_assert(harbol_array_cap_diff(&A, &B)==(rcap > bcap? rcap-bcap : bcap-rcap), "cap_diff");
	if( vp_bool() ) {
		bool r = harbol_array_add(&A, &B, DS);
		if( rlen + blen < rcap ) vp_assert(r, "add must succeed when it fits");
		if( rlen + blen > rcap ) vp_assert(!r, "add must fail when it does not fit");
		if( r ) {
			elem out[CAP+1];
			for( size_t k=0; k<CAP; k++ ) if( k < rlen ) out[k] = ref[k]; else if( k-rlen < blen ) out[k] = rb[k-rlen];
			for( size_t k=0; k<CAP; k++ ) ref[k] = out[k];
			rlen += blen;
			if( blen > 1 ) vp_reach("add");
		}
	} else {
		bool r = harbol_array_copy(&A, &B, DS);
		vp_assert(r, "copy");
		rlen = rcap < blen? rcap : blen;
		for( size_t k=0; k<CAP; k++ ) ref[k] = rb[k];
		if( blen > 1 ) vp_reach("copy");
	}
	vp_assert(A.cap == rcap && B.cap == bcap && B.len == blen, "capacity or source changed");
	size_t j = vp_u64();
	if( j < blen ) vp_assert(eq(&rb[j], B.table + j*DS), "source contents changed");
	same();
	vp_assert(harbol_array_add(&A, &A, DS) || 2*A.len >= A.cap, "self add");
}

//@job C02 func=H_arr_resize unwind=12 defs=DS=1,CAP=6
//@job C02 func=H_arr_resize unwind=12 defs=DS=3,CAP=5
void H_arr_resize(void){
	setup();
	vp_alloc_may_fail = vp_bool();
	size_t n = vp_u64();
	uint8_t op = vp_u8();
	bool r;
	if( op==0 ) {
		r = harbol_array_grow(&A, DS);
		if( !vp_failed ) vp_assert(r && A.cap > rcap, "grow enlarges");
		vp_assert(A.cap >= rcap, "grow never loses capacity");
		if( r && rlen > 0 ) vp_reach("grow");
	} else if( op==1 ) {
		vp_assume(n < ((size_t)1<<62));
		r = harbol_array_resize(&A, DS, n);
		vp_assert(r == (A.cap != rcap), "resize reports whether the capacity changed");
		if( r && n > 0 && rcap > 0 ) vp_assert(A.cap >= n, "resized capacity holds the request");
		if( r && A.cap < rlen ) vp_reach("truncating resize");
		if( r && A.cap > rcap && rlen > 0 ) vp_reach("growing resize");
	} else {
		r = harbol_array_shrink(&A, DS, op==2);
		if( r ) vp_assert(A.cap < rcap, "shrink reports success only when smaller");
		vp_assert(A.cap >= rlen, "shrink never drops elements");
		if( r ) vp_reach("shrink");
	}

	if( rlen > A.cap ) rlen = A.cap;      /* only an explicit resize below the length truncates */
	same();
	/* the storage really holds cap elements */
	elem e = any_elem();
	if( A.len < A.cap ) {
		vp_assert(harbol_array_append(&A, &e, DS)==rlen, "append after resize");
		ref[rlen < CAP? rlen : CAP] = e; 
		vp_assert(eq(&e, harbol_array_get(&A, rlen, DS)), "appended element");
	}
	if( A.cap > 0 ) A.table[A.cap*DS-1] = 0;
}

//@job C02 func=H_arr_life unwind=12 defs=DS=2
void H_arr_life(void){
	vp_alloc_may_fail = vp_bool();
	size_t want = vp_range(0, 9);
	elem e = any_elem(); 
	if( vp_bool() ) {
		struct HarbolArray *p = harbol_array_new(DS, want);
		vp_assert((p != NULL) == (vp_failed==0), "new yields an array unless memory ran out");
		if( p ) {
			vp_assert(p->len==0 && p->cap >= want && p->cap > 0, "fresh array is empty with the capacity asked for");
			p->table[p->cap*DS-1] = 1;
			vp_assert(harbol_array_append(p, &e, DS)==0, "append to fresh");
			vp_reach("new");
		}
		harbol_array_cleanup(&p);
		vp_assert(p==NULL, "cleanup nulls the reference");
	} else {
		bool ok = false;
		struct HarbolArray a = harbol_array_make(DS, want, &ok);
		vp_assert(ok == (vp_failed==0), "make succeeds unless memory ran out");
		if( ok ) {
			vp_assert(a.len==0 && a.cap >= want && a.cap > 0, "made array is empty with the capacity asked for");
			a.table[a.cap*DS-1] = 1;
			vp_reach("make");
		}
		harbol_array_clear(&a);
		vp_assert(a.len==0 && a.cap==0 && a.table==NULL && harbol_array_empty(&a), "cleared");
		vp_assert(harbol_array_append(&a, &e, DS)==SIZE_MAX && harbol_array_get(&a, 0, DS)==NULL && !harbol_array_insert(&a,&e,DS)
			&& harbol_array_pop(&a, DS)==NULL && !harbol_array_del_by_index(&a, vp_u64(), DS) && !harbol_array_del_by_val(&a, &e, DS)
			&& harbol_array_index_of(&a, &e, DS, 0)==SIZE_MAX, "a cleared array refuses every element operation");
		elem g = e; struct HarbolArray b = {0};
		vp_assert(!harbol_array_del_by_range(&a, vp_u64(), DS, vp_u64()) && !harbol_array_fill(&a, &e, DS) && !harbol_array_swap(&a, DS)
			&& !harbol_array_shift_up(&a, vp_u64(), DS, vp_u64()) && harbol_array_item_count(&a, &e, DS)==0
			&& !harbol_array_set(&a, vp_u64(), &e, DS), "a cleared array refuses every change");
		vp_assert(!harbol_array_pop_ex(&a, &g, DS) && !harbol_array_peek_ex(&a, &g, DS) && !harbol_array_get_ex(&a, vp_u64(), &g, DS)
			&& harbol_array_peek(&a, DS)==NULL && eq(&g, (uint8_t *)&e), "there is nothing to read");
		vp_assert(!harbol_array_add(&a, &b, DS) && !harbol_array_add(&b, &a, DS) && !harbol_array_copy(&a, &b, DS), "nothing can be joined to nothing");
		vp_assert(a.len==0 && a.cap==0 && a.table==NULL, "still cleared");
		harbol_array_wipe(&a, DS);
		vp_alloc_may_fail = 0;
		vp_assert(harbol_array_grow(&a, DS) && harbol_array_append(&a, &e, DS)==0 && eq(&e, harbol_array_get(&a, 0, DS)), "a cleared array can be used again");
		harbol_array_clear(&a);
	}
	vp_assert(vp_live==0, "memory leaked");
}
/* arrays over storage of the caller's: its records are there, it grows without losing any */
//@job C02 engine=sx func=H_arr_over
void H_arr_over(void){
	size_t const cap = vp_pick(1, 4), len = vp_pick(0, 4), z = vp_pick(1, 3); vp_assume(len<=cap);
	uint8_t *b = malloc(cap*z), o[12]; vp_assume(b != NULL);
	for( size_t i=0;i<len*z;i++ ) b[i] = o[i] = vp_u8();
	struct HarbolArray *v, w; bool const heap = vp_bool();
	if( heap ) { v = harbol_array_new_from_array(b, cap, len); vp_assume(v != NULL); }
	else { w = harbol_array_make_from_array(b, cap, len); v = &w; }
	vp_assert(harbol_array_len(v)==len && harbol_array_cap(v)==cap && *harbol_array_data(v)==(void*)b, "the storage and its records");
	vp_assert(harbol_array_full(v)==(len==cap) && harbol_array_empty(v)==(len==0), "full and empty");
	if( vp_bool() ) vp_assert(harbol_array_grow(v, z) && harbol_array_cap(v)>cap, "more room");
	uint8_t x[3]; for( size_t i=0;i<z;i++ ) x[i] = vp_u8();
	bool const r = harbol_array_insert(v, x, z);
	vp_assert(r==(harbol_array_cap(v)>len), "a record is put in when there is room");
	vp_assert(harbol_array_len(v)==len+r, "one record more");
	uint8_t const *const d = *harbol_array_data(v);
	for( size_t i=0;i<len*z;i++ ) vp_assert(d[i]==o[i], "the records stay");
	for( size_t i=0;r && i<z;i++ ) vp_assert(d[len*z+i]==x[i], "the new record is last");
	if( r && harbol_array_cap(v)>cap ) vp_reach("grown");
	if( heap && vp_bool() ) { harbol_array_cleanup(&v); vp_assert(v==NULL, "cleaned up"); }
	else { harbol_array_clear(v); vp_assert(harbol_array_len(v)==0 && harbol_array_cap(v)==0 && harbol_array_insert(v, x, z)==false, "cleared"); if( heap ) { harbol_array_free(&v); vp_assert(v==NULL, "freed"); } }
	vp_assert(vp_live==0, "nothing is left");
	vp_reach("end");
}
/* histories of making room and giving it back, with more records */
//@job C02 engine=sx func=H_arr_caps
void H_arr_caps(void){
	static size_t const sizes[] = {1, 5, 8, 9, 12, 16, 17, 23, 31, 32, 33, 40};
	size_t const z = vp_pick(1, 2), cap0 = sizes[vp_pick(0, 11)];
	size_t len = sizes[vp_pick(0, 11)]; vp_assume(len<=cap0);
	uint8_t *b = malloc(cap0*z), o[80]; vp_assume(b != NULL);
	for( size_t i=0;i<len*z;i++ ) b[i] = o[i] = vp_u8();
	struct HarbolArray a = harbol_array_make_from_array(b, cap0, len);
	for( int s=0;s<2;s++ ) {
		size_t const was = harbol_array_cap(&a), op = vp_pick(0, 3);
		bool r;
		if( op==0 ) {
			r = harbol_array_grow(&a, z);
			vp_assert(r && harbol_array_cap(&a)>was, "there is more room");
		} else if( op<3 ) {
			r = harbol_array_shrink(&a, z, op==1);
			vp_assert(harbol_array_cap(&a)>=len && r==(harbol_array_cap(&a)<was), "room is given back, but not what the records need");
			if( r && op==1 ) vp_reach("shrunk to fit");
			if( r && op==2 && len>8 ) vp_reach("shrunk");
		} else {
			size_t const want = sizes[vp_pick(0, 11)];
			r = harbol_array_resize(&a, z, want);
			vp_assert(r==(harbol_array_cap(&a)!=was) && harbol_array_cap(&a)>=want, "there is the room asked for");
			if( harbol_array_cap(&a)<len ) { len = harbol_array_cap(&a); vp_reach("truncated"); }
		}
		vp_assert(harbol_array_len(&a)==len, "only records that no longer fit are lost");
		uint8_t const *const d = *harbol_array_data(&a);
		for( size_t i=0;i<len*z;i++ ) vp_assert(d[i]==o[i], "the records stay");
	}
	uint8_t const x[2] = {vp_u8(), vp_u8()};
	bool const room = harbol_array_cap(&a)>len;
	vp_assert(harbol_array_insert(&a, x, z)==room, "a record is put in when there is room");
	if( room ) { uint8_t const *const d = harbol_array_get(&a, len, z); vp_assert(d && d[0]==x[0] && d[z-1]==x[z-1], "the new record"); }
	harbol_array_clear(&a);
	vp_assert(vp_live==0, "nothing is left");
}
/* the same operations on longer arrays of larger records: nothing depends on a size */
#define LMAX 40
static size_t lz, ln, lcap; static uint8_t lo[(LMAX+4)*24];
static void lrec(uint8_t *r, unsigned v){ for( size_t k=0;k<lz;k++ ) r[k] = (uint8_t)(v*(k+3) + k); r[0] = (uint8_t)v; r[lz-1] ^= lz>1? 0x55 : 0; }
static void lsame(struct HarbolArray *a){
	vp_assert(harbol_array_len(a)==ln, "length differs from the sequence model");
	uint8_t const *const d = *harbol_array_data(a);
	for( size_t i=0;i<ln*lz;i++ ) vp_assert(d[i]==lo[i], "record differs from the sequence model");
}
static void ldel(size_t i, size_t n){ if( n > ln-i ) n = ln-i; memmove(lo+i*lz, lo+(i+n)*lz, (ln-i-n)*lz); ln -= n; }
//@job C01 engine=sx func=H_arr_large
void H_arr_large(void){
	static size_t const zs[] = {1, 4, 8, 9, 16, 24}, ns[] = {9, 17, 33};
	lz = zs[vp_pick(0, 5)]; ln = ns[vp_pick(0, 2)];
	size_t const n = ln, cap = n + 3;
	struct HarbolArray a = harbol_array_make_from_array(calloc(cap, lz), cap, n);
	vp_assume(a.table != NULL);
	bool const val = vp_bool();
	for( size_t i=0;i<n;i++ ) { lrec(lo+i*lz, (unsigned)(i*5%n)); if( !val ) lo[i*lz] = vp_u8(); }
	for( size_t i=0;i<n*lz;i++ ) a.table[i] = lo[i];
	uint8_t rec[24], out[24];
	size_t const at[] = {0, 1, 7, n/2, n-2, n-1, n, SIZE_MAX}, ix = at[vp_pick(0, 7)];
	if( val ) {
		/* which records equal a value; every record but the last two is different */
		memcpy(lo+(n-2)*lz, lo, lz); memcpy(a.table+(n-2)*lz, lo, lz);
		if( ix<n ) memcpy(rec, lo+ix*lz, lz); else lrec(rec, 200);
		size_t first = SIZE_MAX, cnt = 0;
		for( size_t i=0;i<n;i++ ) if( !memcmp(lo+i*lz, rec, lz) ) { cnt++; if( first==SIZE_MAX ) first = i; }
		vp_assert(harbol_array_item_count(&a, rec, lz)==cnt, "how many records equal a value");
		size_t const from = at[vp_pick(0, 4)];
		size_t want = SIZE_MAX; for( size_t i=from;i<n;i++ ) if( want==SIZE_MAX && !memcmp(lo+i*lz, rec, lz) ) want = i;
		vp_assert(harbol_array_index_of(&a, rec, lz, from)==want, "first record equal to a value");
		vp_assert(harbol_array_del_by_val(&a, rec, lz)==(first!=SIZE_MAX), "a record is deleted if there is one");
		if( first!=SIZE_MAX ) ldel(first, 1);
		vp_reach("by value");
	} else switch( vp_pick(0, 7) ) {
	case 0:
		vp_assert(harbol_array_del_by_index(&a, ix, lz)==(ix<n), "deletion succeeds exactly in range");
		if( ix<n ) ldel(ix, 1);
		break;
	case 1: {
		static size_t const rs[] = {2, 7, 8, 9, 16, 40};
		size_t const r = rs[vp_pick(0, 5)];
		vp_assert(harbol_array_del_by_range(&a, ix, lz, r)==(ix<n), "deletion succeeds exactly in range");
		if( ix<n ) ldel(ix, r);
		vp_reach("range");
		break;
	}
	case 2:
		vp_assert(harbol_array_swap(&a, lz), "reversed");
		for( size_t i=0;i<n/2;i++ ) { memcpy(out, lo+i*lz, lz); memcpy(lo+i*lz, lo+(n-1-i)*lz, lz); memcpy(lo+(n-1-i)*lz, out, lz); }
		break;
	case 3:
		for( size_t k=0;k<lz;k++ ) rec[k] = vp_u8();
		vp_assert(harbol_array_set(&a, ix, rec, lz)==(ix<n), "stored exactly in range");
		if( ix<n ) memcpy(lo+ix*lz, rec, lz);
		break;
	case 4:
		vp_assert(harbol_array_get_ex(&a, ix, out, lz)==(ix<n), "read exactly in range");
		if( ix<n ) for( size_t k=0;k<lz;k++ ) vp_assert(out[k]==lo[ix*lz+k], "the record read");
		vp_assert(harbol_array_get(&a, ix, lz)==(ix<n? a.table+ix*lz : NULL), "the record's place");
		vp_assert(harbol_array_pop_ex(&a, out, lz), "popped"); ln--;
		for( size_t k=0;k<lz;k++ ) vp_assert(out[k]==lo[ln*lz+k], "the record popped");
		uint8_t *p = harbol_array_peek(&a, lz); vp_assert(p==a.table+(ln-1)*lz, "the last record's place");
		vp_assert(harbol_array_pop(&a, lz)==(void*)p, "popped"); ln--;
		break;
	case 5:
		for( size_t k=0;k<lz;k++ ) rec[k] = vp_u8();
		vp_assert(harbol_array_insert(&a, rec, lz) && harbol_array_append(&a, rec, lz)==n+1, "put in");
		memcpy(lo+n*lz, rec, lz); memcpy(lo+(n+1)*lz, rec, lz); ln += 2;
		break;
	case 6: {
		size_t const m = vp_pick(0, 2);
		struct HarbolArray b = harbol_array_make_from_array(calloc(n, lz), n, m); vp_assume(b.table != NULL);
		for( size_t i=0;i<m*lz;i++ ) b.table[i] = lo[n*lz+i] = vp_u8();
		vp_assert(harbol_array_add(&a, &b, lz), "joined"); ln += m;
		vp_assert(harbol_array_copy(&b, &a, lz), "copied");
		size_t const k = ln<n? ln : n;
		vp_assert(harbol_array_len(&b)==k, "as much as fits");
		for( size_t i=0;i<k*lz;i++ ) vp_assert(b.table[i]==lo[i], "the copy");
		harbol_array_clear(&b);
		vp_reach("joined");
		break;
	}
	default:
		for( size_t k=0;k<lz;k++ ) rec[k] = vp_u8();
		vp_assert(harbol_array_fill(&a, rec, lz), "filled"); ln = cap;
		for( size_t i=0;i<cap;i++ ) memcpy(lo+i*lz, rec, lz);
	}
	lsame(&a);
	harbol_array_clear(&a);
	vp_assert(vp_live==0, "nothing is left");
}
