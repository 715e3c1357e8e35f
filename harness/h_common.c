// Shared helpers of harbol_common_includes.h: integer helpers (I01), intrusive lists (C10),
// group allocation (O01), parallel-buffer removal (C06 uses it too).
#include "vp.h"
#include "harbol.h"
#ifndef CAP
#define CAP 4
#endif

//@job I01 func=H_int_log unwind=24
void H_int_log(void){
	size_t x = vp_u64();
	size_t l2 = int_log2(x);
	vp_assert(x==0 ? l2==0 : (l2 < 64 && (x >> l2)==1), "int_log2 is floor(log2 x)");
	vp_assert(base_2_digits(x)==(x==0? 0 : l2+1), "base_2_digits");
	vp_assert(base_2_num_chars(x)==base_2_digits(x)+1, "base_2_num_chars");
	size_t d = 1, lim = 10;  /* decimal digits, by comparison only */
	for( unsigned i=1; i<20; i++ ) { if( x >= lim ) d = i+1; lim = i<19? lim*10 : lim; }
	vp_assert(int_log10(x)==d-1, "int_log10 is floor(log10 x)");
	vp_assert(base_10_digits(x)==d, "base_10_digits");
	vp_assert(base_10_num_chars_uint(x)==d+1, "base_10_num_chars_uint");
	if( d==20 ) vp_reach("20 digits");
}

//@job I01 func=H_int_dec unwind=24
void H_int_dec(void){
	/* room for the sign, the digits and the terminator of every ssize_t */
	uint64_t v = vp_u64();
	ssize_t x; memcpy(&x, &v, sizeof x);
	uint64_t mag = (v >> 63)? 0 - v : v;
	size_t d = 1, lim = 10;
	for( unsigned i=1; i<20; i++ ) { if( mag >= lim ) d = i+1; lim = i<19? lim*10 : lim; }
	vp_assert(base_10_num_chars_int(x)==d+2, "base_10_num_chars_int leaves room for sign, digits and terminator");
	vp_reach("end");
}

//@job I01 func=H_int_logN unwind=68 defs=BASE=3
//@job I01 func=H_int_logN unwind=68 defs=BASE=7
//@job I01 func=H_int_logN unwind=68 defs=BASE=16
#ifndef BASE
#define BASE 3
#endif
void H_int_logN(void){
	/* int_log on exact tables (the tables the library fills in by floating point are not encoded) */
	static size_t pw[66]; size_t n=0;
	for( size_t p=1; ; ) { pw[n++] = p; if( p > SIZE_MAX/BASE ) break; p *= BASE; }
	static size_t tab[MAX_LOG_TABLE_SIZE];
	for( unsigned i=0, k=0; i<64; i++ ) { while( k+1<n && pw[k+1] <= ((size_t)1<<i) ) k++; tab[i]=k; }
	size_t x = vp_u64(); vp_assume(x > 0);
	size_t r = int_log(x, (size_t const (*)[MAX_LOG_TABLE_SIZE])&tab, pw);
	vp_assert(r < n && pw[r] <= x && (r+1==n || x < pw[r+1]), "int_log is floor(log_base x)");
	vp_assert(base_N_digits(x, (size_t const (*)[MAX_LOG_TABLE_SIZE])&tab, pw)==r+1, "base_N_digits");
	vp_assert(base_N_num_chars_uint(x, (size_t const (*)[MAX_LOG_TABLE_SIZE])&tab, pw)==r+2, "base_N_num_chars_uint");
	uint64_t v = vp_u64(); ssize_t s; memcpy(&s, &v, sizeof s); vp_assume(s != 0);
	uint64_t mag = (v >> 63)? 0 - v : v;
	size_t q = base_N_num_chars_int(s, (size_t const (*)[MAX_LOG_TABLE_SIZE])&tab, pw);
	vp_assert(q >= 3 && q-3 < n && pw[q-3] <= mag && (q-2==n || mag < pw[q-2]), "base_N_num_chars_int");
	vp_reach("end");
}

//@job I01 func=H_int_align unwind=2
void H_int_align(void){
	size_t x = vp_u64(), sh = vp_range(0,62), al = (size_t)1 << sh;
	size_t c = bitwise_ceil(x);
	vp_assert((c & (c+1))==0 && c >= x && (c>>1) <= x, "bitwise_ceil is the smallest all-ones value covering x");
	if( x < (size_t)1<<63 ) {
		size_t p = next_pow_of_2(x);
		vp_assert((p & (p-1))==0 && p > x && (p>>1) <= x, "next_pow_of_2 is the smallest power of two above x");
	}
	size_t pad = harbol_pad_size(x, al);
	vp_assert(pad < al && ((x + pad) & (al-1))==0, "pad_size completes the alignment with less than one unit");
	if( x <= SIZE_MAX - (al-1) ) {
		size_t a = harbol_align_size(x, al);
		vp_assert(a >= x && a - x < al && (a & (al-1))==0 && a == x + pad, "align_size rounds up to the next multiple");
	}
	vp_assert(is_ptr_aligned((void*)(uintptr_t)x, al) == (x % al == 0), "is_ptr_aligned");
	vp_reach("end");
}
//@job I01 func=H_int_bounds unwind=9
void H_int_bounds(void){
	size_t v=vp_u64(), lo=vp_u64(), hi=vp_u64();
	if( lo <= hi ) {
		vp_assert(is_uint_in_bounds(v,hi,lo)==(lo<=v && v<=hi), "is_uint_in_bounds");
		vp_assert(is_uintptr_in_bounds(v,hi,lo)==(lo<=v && v<=hi), "is_uintptr_in_bounds");
	}
	ssize_t sv, sl, sh; memcpy(&sv,&v,8); memcpy(&sl,&lo,8); memcpy(&sh,&hi,8);
	if( sl <= sh ) vp_assert(is_int_in_bounds(sv,sh,sl)==(sl<=sv && sv<=sh), "is_int_in_bounds");
	size_t b = vp_range(0, sizeof(size_t));
	size_t m = bytes_bitmask(b), w=0;
	for( unsigned i=0;i<8;i++ ) if( i<b ) w |= (size_t)0xff << (8*i);
	vp_assert(m==w, "bytes_bitmask covers exactly the low bytes");
	if( b > 4 ) vp_reach("wide mask");
}

/* ---- intrusive lists ---- */
struct lnode { struct HarbolLink l; int v; };
struct bnode { struct HarbolBiLink l; int v; };
//@job C10 func=H_link unwind=8
void H_link(void){
	static struct lnode n[CAP+1];
	static struct lnode dirty;
	struct lnode *head=NULL, *tail=NULL, *ord[CAP+2];
	size_t len = vp_range(0, CAP);
	for( size_t i=0;i<CAP;i++ ) if( i<len ) { n[i].v=(int)i; n[i].l.a = i+1<len? &n[i+1].l : NULL; ord[i]=&n[i]; }
	if( len ) { head=&n[0]; tail=&n[len-1]; }
	struct lnode *x = &n[CAP]; x->v = 99; 
	if( vp_bool() ) x->l.a = &dirty.l;      /* a node coming from another list */
	bool use_tail = vp_bool(); size_t k = vp_u64();
	switch( vp_u8() ) {
	case 0:
		harbol_link_add_to_head(&head, x, use_tail? &tail : NULL);
		for( size_t i=CAP;i>0;i-- ) if( i<=len ) ord[i]=ord[i-1];
		ord[0]=x; if( !use_tail && len==0 ) tail=x; len++; vp_reach("head");
		break;
	case 1:
		harbol_link_add_to_tail(&head, x, &tail);
		ord[len++]=x; if( len==1 ) vp_reach("tail of empty");
		break;
	default:
		vp_assume(k < len);
		harbol_link_add_after(ord[k], x);
		for( size_t i=CAP;i>0;i-- ) if( i<=len && i>k+1 ) ord[i]=ord[i-1];
		ord[k+1]=x; if( k+1==len ) tail=x; len++; vp_reach("after");
	}
	vp_assert(len==0 ? head==NULL : head==ord[0] && tail==ord[len-1], "ends");
	struct lnode *it=head;
	for( size_t i=0;i<CAP+1;i++ ) if( i<len ) { vp_assert(it==ord[i], "forward order"); it = harbol_link_get_a(it); }
	vp_assert(it==NULL, "list ends after the last node");
}
//@job C10 func=H_bilink unwind=8
void H_bilink(void){
	static struct bnode n[CAP+1];
	static struct bnode dirty;
	struct bnode *head=NULL, *tail=NULL, *ord[CAP+2];
	size_t len = vp_range(0, CAP);
	for( size_t i=0;i<CAP;i++ ) if( i<len ) { n[i].v=(int)i; n[i].l.a = i+1<len? &n[i+1].l : NULL; n[i].l.b = i>0? &n[i-1].l : NULL; ord[i]=&n[i]; }
	if( len ) { head=&n[0]; tail=&n[len-1]; }
	struct bnode *x = &n[CAP]; x->v = 99;
	if( vp_bool() ) x->l.a = &dirty.l;
	if( vp_bool() ) x->l.b = &dirty.l;
	size_t k = vp_u64();
	switch( vp_u8() ) {
	case 0:
		harbol_bilink_add_to_head(&head, x, &tail);
		for( size_t i=CAP;i>0;i-- ) if( i<=len ) ord[i]=ord[i-1];
		ord[0]=x; len++; vp_reach("head");
		break;
	case 1:
		harbol_bilink_add_to_tail(&head, x, &tail);
		ord[len++]=x; vp_reach("tail");
		break;
	case 2:
		vp_assume(k < len);
		harbol_bilink_add_after(ord[k], x);
		for( size_t i=CAP;i>0;i-- ) if( i<=len && i>k+1 ) ord[i]=ord[i-1];
		ord[k+1]=x; if( k+1==len ) tail=x; len++; vp_reach("after");
		break;
	default:
		vp_assume(k < len);
		harbol_bilink_remove(&head, ord[k], &tail);
		for( size_t i=0;i<CAP;i++ ) if( i>=k && i+1<len ) ord[i]=ord[i+1];
		len--; if( len > 1 ) vp_reach("remove");
	}
	vp_assert(len==0 ? head==NULL && tail==NULL : head==ord[0] && tail==ord[len-1], "ends");
	struct bnode *it=head;
	for( size_t i=0;i<CAP+1;i++ ) if( i<len ) { vp_assert(it==ord[i], "forward order"); it = harbol_link_get_a(it); }
	vp_assert(it==NULL, "list ends after the last node");
	it=tail;
	for( size_t i=CAP+1;i-->0; ) if( i<len ) { vp_assert(it==ord[i], "backward order"); it = harbol_bilink_get_b(it); }
	vp_assert(it==NULL, "list starts at the first node");
}

/* doubly linked lists over any history: every node goes in and out, with the links it had before */
#ifndef LSTEPS
#define LSTEPS 7
#endif
//@job C10 engine=sx func=H_bilink_hist
//@job C10 engine=sx func=H_bilink_hist defs=LSTEPS=8 tier=thorough timeout=800 steps=400000000
void H_bilink_hist(void){
	enum { M=4 };
	static struct bnode n[M]; struct bnode *ord[M+1], *head = NULL, *tail = NULL; bool in[M] = {0}; size_t len = 0;
	for( size_t s=0;s<LSTEPS;s++ ) {
		size_t const op = vp_pick(0, 3), k = vp_pick(0, M-1);
		size_t at = 0;
		if( op==3 ) {
			vp_assume(k<len);
			struct bnode *const x = ord[k];
			harbol_bilink_remove(&head, x, &tail);
			for( size_t i=k;i+1<len;i++ ) ord[i] = ord[i+1];
			len--; in[x-n] = false;
		} else {
			size_t x = 0; while( x<M && in[x] ) x++;
			vp_assume(x<M);
			if( op==0 ) { vp_assume(k==0); harbol_bilink_add_to_head(&head, &n[x], &tail); }
			else if( op==1 ) { vp_assume(k==0); harbol_bilink_add_to_tail(&head, &n[x], &tail); at = len; }
			else { vp_assume(k<len); harbol_bilink_add_after(ord[k], &n[x]); at = k+1; if( at==len ) tail = &n[x]; }
			for( size_t i=len;i>at;i-- ) ord[i] = ord[i-1];
			ord[at] = &n[x]; len++; in[x] = true;
		}
		vp_assert(len==0? head==NULL && tail==NULL : head==ord[0] && tail==ord[len-1], "ends");
		if( len==M ) vp_reach("full");
		for( size_t i=0;i<len;i++ ) {
			vp_assert(harbol_link_get_a(ord[i])==(i+1<len? (void*)ord[i+1] : NULL), "next node");
			vp_assert(harbol_bilink_get_b(ord[i])==(i>0? (void*)ord[i-1] : NULL), "previous node");
		}
	}
	vp_reach("end");
}
/* lists without a tail, and the accessors of single links */
//@job C10 engine=sx func=H_link_access
void H_link_access(void){
	static struct bnode n[3]; struct bnode *head = NULL;
	size_t const len = vp_pick(0, 3);
	for( size_t i=0;i<len;i++ ) harbol_bilink_add_to_head(&head, &n[i], NULL);
	struct bnode *p = head, *q = NULL;
	for( size_t i=len;i-->0; q=p, p=harbol_link_get_a(p) ) vp_assert(p==&n[i] && harbol_bilink_get_b(p)==(void*)q, "nodes from the head on");
	vp_assert(p==NULL, "end");
	static struct HarbolTriLink t[2]; struct HarbolTriLink *const to = vp_bool()? &t[1] : NULL;
	size_t const w = vp_pick(0, 2);
	if( w==0 ) harbol_link_set_a(&t[0], to); else if( w==1 ) harbol_bilink_set_b(&t[0], to); else harbol_trilink_set_c(&t[0], to);
	vp_assert(harbol_link_get_a(&t[0])==(w==0? to : NULL) && harbol_bilink_get_b(&t[0])==(w==1? to : NULL) && harbol_trilink_get_c(&t[0])==(w==2? to : NULL), "the link that was set, alone");
	*harbol_link_get_a_ref(&t[0]) = &t[0]; vp_assert(harbol_link_get_a(&t[0])==&t[0], "first link");
	*harbol_bilink_get_b_ref(&t[0]) = &t[1]; vp_assert(harbol_bilink_get_b(&t[0])==&t[1] && harbol_link_get_a(&t[0])==&t[0], "second link");
	*harbol_trilink_get_c_ref(&t[0]) = to; vp_assert(harbol_trilink_get_c(&t[0])==to && harbol_bilink_get_b(&t[0])==&t[1], "third link");
	vp_reach("end");
}

/* ---- group (re)allocation: all or nothing ---- */
//@job O01 func=H_multi_alloc unwind=10 defs=N0=3,N1=4
//@job O01 func=H_multi_alloc unwind=10 defs=N0=3,N1=2
//@job O01 func=H_multi_alloc unwind=10 defs=N0=1,N1=3
#ifndef N0
#define N0 2
#define N1 3
#endif
void H_multi_alloc(void){
	size_t n = N0, m = N1, j;
	uint8_t *a=NULL; uint16_t *b=NULL; uint64_t *c=NULL;
	bool r = harbol_multi_calloc(n, 3, &a, sizeof *a, &b, sizeof *b, &c, sizeof *c);
	vp_assert(r && vp_live==3, "group allocation");
	for( size_t i=0;i<4;i++ ) if( i<n ) { vp_assert(a[i]==0 && b[i]==0 && c[i]==0, "zeroed"); a[i]=(uint8_t)(i+1); b[i]=(uint16_t)(i+1000); c[i]=i+100000; }
	uint8_t *a0=a; uint16_t *b0=b; uint64_t *c0=c;
	vp_alloc_may_fail = 1;
	r = harbol_multi_recalloc(m, n, 3, &a, sizeof *a, &b, sizeof *b, &c, sizeof *c);
	vp_alloc_may_fail = 0;
	vp_assert(r == (vp_failed==0), "group resize succeeds unless memory ran out");
	if( !r ) { vp_assert(a==a0 && b==b0 && c==c0, "failed group resize leaves the buffers unchanged"); m = n; vp_reach("failed resize"); }
	else vp_reach("resized");
	j = vp_u64(); vp_assume(j < m);
	vp_assert(a[j]==(j<n? j+1 : 0) && b[j]==(j<n? j+1000 : 0) && c[j]==(j<n? j+100000 : 0), "contents kept, new part zeroed");
	a[j]=1; b[j]=1; c[j]=1;
	harbol_multi_cleanup(3, &a, &b, &c);
	vp_assert(a==NULL && b==NULL && c==NULL && vp_live==0, "group release leaves nothing behind");
}
//@job O01 func=H_multi_calloc_fail unwind=10
void H_multi_calloc_fail(void){
	uint8_t *a; uint16_t *b; uint64_t *c;
	vp_alloc_may_fail = 1;
	bool r = harbol_multi_calloc(vp_range(1,4), 3, &a, sizeof *a, &b, sizeof *b, &c, sizeof *c);
	vp_assert(r == (vp_failed==0), "group allocation succeeds unless memory ran out");
	if( !r ) { vp_assert(a==NULL && b==NULL && c==NULL && vp_live==0, "failed group allocation leaves nothing behind"); vp_reach("failed"); }
	else vp_assert(vp_live==3, "all allocated");
}
//@job O01 func=H_recalloc unwind=13
void H_recalloc(void){
	size_t n = vp_range(1,4), es = vp_range(1,3), m = vp_u64();
	vp_assume(m <= 8 || m > VP_MAXALLOC);
	uint8_t *a = vp_calloc(n, es);
	for( size_t i=0;i<12;i++ ) if( i<n*es ) a[i] = (uint8_t)(i+1);
	vp_alloc_may_fail = vp_bool();
	uint8_t *p = harbol_recalloc(a, m, es, n);
	vp_alloc_may_fail = 0;
	if( p==NULL ) {
		vp_assert(vp_failed > 0 || m > VP_MAXALLOC/es, "resize fails only when memory runs out");
		p = a; m = n; vp_reach("failed");
	}
	/* on failure the old block is still owned by the caller, on success the new one has m elements */
	vp_assert(vp_live==1, "exactly one block is alive after a resize");
	size_t j = vp_u64(); 
	if( j < m*es && m <= 8 ) { vp_assert(p[j]==(j < n*es ? j+1 : 0), "contents kept, new part zeroed"); vp_reach("resized"); }
	vp_free(p);
	vp_assert(vp_live==0, "released");
}
//@job O01 func=H_multi_shift unwind=8
void H_multi_shift(void){
	uint8_t *a = vp_malloc(4); uint32_t *b = vp_malloc(16);
	for( unsigned i=0;i<4;i++ ) { a[i]=(uint8_t)(i+1); b[i]=i+1000; }
	size_t len = vp_range(0,4), old=len, idx=vp_u64(), amt=vp_u64();
	bool r = multi_array_shift_up(&len, idx, amt, 2, a, sizeof *a, b, sizeof *b);
	vp_assert(r==(idx<old), "removal succeeds exactly for an index in range");
	size_t k = 0;
	if( r ) { k = amt? amt : 1; if( k > old-idx ) k = old-idx; vp_reach("removed"); }
	vp_assert(len==old-k, "count");
	size_t j = vp_range(0,3);
	if( j < len ) { size_t s = r && j>=idx? j+k : j; vp_assert(a[j]==s+1 && b[j]==s+1000, "parallel buffers stay in step"); }
	else if( j < old ) vp_assert(a[j]==0 && b[j]==0, "vacated slots are zeroed");
}
