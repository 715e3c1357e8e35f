// Memory pool: histories of allocate / free / reallocate with the solver choosing sizes, victims and order.
//@src allocators/mempool/mempool.c allocators/region/region.c
//@rt
#include "vp.h"
#include "allocators/mempool/mempool.h"
#ifndef POOL
#define POOL 320
#endif
#ifndef STEPS
#define STEPS 5
#endif
#ifndef SDIV
#define SDIV 8
#endif
#ifndef SMAX
#define SMAX 48
#endif
#define MAXB (STEPS+12)
static struct HarbolMemPool P;
static uint8_t *mem;
static struct { uint8_t *p; size_t n, r, took; uint8_t fill; bool live; } B[MAXB];
static size_t nb;
/* blocks are whole words */
static size_t up(size_t n){ return (n+7) & ~(size_t)7; }
static size_t left(void){ return harbol_mempool_mem_remaining(&P); }
static void contents(size_t b){ for( size_t i=0;i<B[b].r;i++ ) vp_assert(B[b].p[i]==B[b].fill, "live block keeps its contents"); }
static void all(void){ for( size_t i=0;i<nb;i++ ) if( B[i].live ) contents(i); }
static void start(void){
	bool r = false;
#ifdef FROMBUF
	uint8_t *const b = malloc(POOL); vp_assume(b != NULL);
	uint8_t const junk = vp_u8();
	for( size_t i=0;i<POOL;i++ ) b[i] = junk;
	P = harbol_mempool_make_from_buffer(b, POOL, &r);
	vp_assert(r && P.stack.mem==b, "a pool over a buffer uses that buffer");
#else
	P = harbol_mempool_make(POOL, &r);
#endif
	vp_assume(r);
	mem = P.stack.mem;
	vp_assert(left()==POOL, "everything is free at first");
}
/* a block of n bytes was handed out: in the pool, aligned, apart from the others; then it is written in full */
static void taken(size_t b, uint8_t *p, size_t n){
	size_t const r = up(n);
	B[b].p = p; B[b].n = n; B[b].r = r; B[b].live = true; B[b].fill = vp_u8();
	vp_assert(p>=mem && n<=POOL && p<=mem + POOL - n, "block lies in the pool");
	vp_assert((uintptr_t)p % sizeof(void *)==0, "block is aligned");
	for( size_t i=0;i<nb;i++ ) if( i != b && B[i].live )
		vp_assert(B[i].p + B[i].r<=p || p + r<=B[i].p, "blocks are disjoint");
	for( size_t i=0;i<r;i++ ) p[i] = B[b].fill;
}
static bool get(size_t n){
	size_t const before = left();
	uint8_t *p = harbol_mempool_alloc(&P, n);
	if( p==NULL ) { vp_assert(left()==before, "a refused request takes nothing"); return false; }
	vp_assert(left()<before && before-left()>=n, "free space shrinks by at least the size");
	for( size_t i=0;i<up(n);i++ ) vp_assert(p[i]==0, "fresh block is zeroed");
	size_t const b = nb++;
	B[b].took = before-left();
	taken(b, p, n);
	return true;
}
static void put(size_t b){
	size_t const before = left();
	vp_assert(harbol_mempool_free(&P, B[b].p), "releasing a live block succeeds");
	vp_assert(left()==before+B[b].took, "its space is free again");
	B[b].live = false;
}
static void resize(size_t b, size_t n){
	size_t const before = left(), k = up(n)<B[b].r? up(n) : B[b].r;
	uint8_t *p = harbol_mempool_realloc(&P, B[b].p, n);
	if( p==NULL ) { vp_assert(left()==before, "a refused request takes nothing"); return; }
	for( size_t i=0;i<k;i++ ) vp_assert(p[i]==B[b].fill, "contents are kept up to the smaller size");
	vp_assert(left()<=POOL-n, "the block takes up space");
	B[b].took = before+B[b].took-left();
	vp_assert(B[b].took>=n, "the block takes up its space");
	taken(b, p, n);
}
/* sizes: with SDIV of 8 everything up to SMAX+8; else eight neighbouring sizes out of every SDIV */
static size_t asize(void){ return vp_pick(0, SMAX/SDIV)*SDIV + 8 - vp_range(0,7); }
static void history(size_t steps){
	for( size_t s=0;s<steps;s++ ) {
		size_t const v = vp_pick(0, nb);
		if( v==nb ) get(asize());
		else if( B[v].live ) {
#ifdef RESIZE
			if( vp_pick(0,1) ) resize(v, asize()); else
#endif
			put(v);
		} else {
			size_t const before = left();
			bool inlive = false;
			for( size_t i=0;i<nb;i++ ) if( B[i].live && B[i].p<=B[v].p && B[v].p<B[i].p+B[i].took ) inlive = true;
			vp_assume(!inlive);   /* a stale pointer into a block handed out since is no double release */
			vp_assert(!harbol_mempool_free(&P, B[v].p), "a block released before is refused");
			vp_assert(left()==before, "and changes nothing");
			vp_reach("released twice");
			return;
		}
		all();
		vp_assert(left()<=POOL, "free space within the capacity");
	}
}
void H_mempool_history(void){
	start();
	history(STEPS);
	vp_reach("end");
}
/* after any history everything is released in an order of the solver's choice; then the whole pool is one block again */
void H_mempool_reclaim(void){
	start();
	history(STEPS);
	size_t k = 0;
	for( size_t i=0;i<nb;i++ ) if( B[i].live ) k++;
	while( k>0 ) {
		size_t v = vp_pick(0, nb-1);
		vp_assume(B[v].live);
		put(v); k--;
		all();
	}
	vp_assert(left()==POOL, "all the space is free again");
	nb = 0;
	vp_assert(get(POOL - sizeof(struct HarbolMemNode)), "and can be had as one block");
	vp_reach("end");
}
/* neighbouring blocks released in any order can be had again as one: N blocks of one size fill the pool's end */
#ifndef N
#define N 3
#endif
void H_mempool_refused(void){
	start();
	static uint8_t other[64];
	size_t const n = vp_pick(0, 2);
	for( size_t i=0;i<n;i++ ) vp_assume(get(1 + 40*vp_pick(0,1)));
	size_t const before = left();
	vp_assert(!harbol_mempool_free(&P, NULL), "NULL is refused");
	vp_assert(!harbol_mempool_free(&P, other+32), "a pointer outside of the pool is refused");
	void *q = NULL;
	vp_assert(!harbol_mempool_cleanup(&P, &q) && q==NULL, "cleaning up NULL is refused");
	vp_assert(!harbol_mempool_free(&P, mem), "the start of the pool is no block");
	vp_assert(!harbol_mempool_free(&P, mem + POOL), "the end of the pool is no block");
	vp_assert(left()==before, "and nothing changes");
	vp_assert(harbol_mempool_alloc(&P, 0)==NULL, "no block of no size");
	size_t const big = vp_u64();
	vp_assume(big>before-sizeof(struct HarbolMemNode));
	vp_assert(harbol_mempool_alloc(&P, big)==NULL, "requests beyond the free space are refused");
	vp_assert(n==0 || harbol_mempool_realloc(&P, B[0].p, big)==NULL, "so are resizes");
	vp_assert(left()==before, "and nothing changes");
	all();
	if( n>0 ) {
		void *p = B[0].p;
		vp_assert(harbol_mempool_cleanup(&P, &p) && p==NULL, "cleanup releases and clears the pointer");
		vp_assert(left()==before+B[0].took, "its space is free again");
		vp_reach("cleanup");
	}
	vp_reach("end");
}
/* lists of several free blocks that do not touch: FREES blocks between separators, released in an order of the
   solver's choice; then POST operations on what is left, then everything is released */
#ifndef FREES
#define FREES 3
#endif
#ifndef POST
#define POST 2
#endif
#ifndef BASE
#define BASE 40
#endif
#ifndef STRIDE
#define STRIDE 40
#endif
#ifndef KINDS
#define KINDS 3
#endif
void H_mempool_lists(void){
	start();
	for( size_t i=0;i<FREES;i++ ) {
		vp_assert(get(BASE + STRIDE*vp_pick(0, KINDS-1) - vp_range(0,7)), "the pool is large enough");
		vp_assert(get(8 - vp_range(0,7)), "the pool is large enough");
	}
	for( size_t i=0;i<FREES;i++ ) {
		size_t const v = vp_pick(0, FREES-1);
		vp_assume(B[2*v].live);
		put(2*v);
	}
	all();
	for( size_t i=0;i<POST;i++ ) {
		size_t const op = vp_pick(0, KINDS-1+FREES+1);
		if( op<KINDS ) get(BASE + STRIDE*op - vp_range(0,7));
		else if( op==KINDS ) { vp_assume(nb>2*FREES); size_t const v = nb-1; vp_assume(B[v].live); put(v); }
		else { size_t const v = 2*(op-KINDS-1)+1; vp_assume(B[v].live); put(v); }
		all();
	}
	vp_reach("mixed");
	for( size_t i=0;i<nb;i++ ) if( B[i].live ) put(i);
	vp_assert(left()==POOL, "all the space is free again");
	nb = 0;
	vp_assert(get(POOL - sizeof(struct HarbolMemNode)), "and can be had as one block");
	vp_reach("end");
}
void H_mempool_make(void){
	vp_alloc_may_fail = 1;
	bool r = vp_bool();
	static size_t const sizes[] = {0,1,24,25,32,40,100,200};
	size_t const n = sizes[vp_pick(0,7)];
	struct HarbolMemPool p = harbol_mempool_make(n, &r);
	vp_assert(n==0? !r : r==(vp_failed==0), "success is told from failure");
	if( !r ) { vp_assert(harbol_mempool_alloc(&p, 8)==NULL, "a pool that was not made gives nothing"); vp_assert(vp_live==0, "nothing is held"); vp_reach("failed"); return; }
	vp_assert(harbol_mempool_mem_remaining(&p)==n, "everything is free");
	size_t const m = vp_u64();
	uint8_t *q = harbol_mempool_alloc(&p, m);
	if( q ) { vp_assert(m>0 && m<=n, "a block of its size"); q[0] = 1; q[m-1] = 2; vp_assert(harbol_mempool_free(&p, q), "and it can be released"); vp_reach("got"); }
	else vp_assert(m==0 || m>n || m + 24 + 7 > n, "a request that fits is served");
	harbol_mempool_clear(&p);
	vp_assert(vp_live==0 && harbol_mempool_mem_remaining(&p)==0, "cleared: nothing left");
	vp_reach("end");
}
/* a pool over a buffer too small for one block's header is refused */
//@job A04 func=H_mempool_over engine=sx
void H_mempool_over(void){
	static uint64_t buf[16];
	bool r = vp_bool(); size_t const n = vp_pick(0, sizeof buf);
	struct HarbolMemPool p = harbol_mempool_make_from_buffer(buf, n, &r);
	vp_assert(r==(n>sizeof(struct HarbolMemNode)), "a buffer that can hold no block is refused");
	uint8_t *q = harbol_mempool_alloc(&p, 1);
	if( !r ) { vp_assert(q==NULL, "a pool that was not made gives nothing"); vp_reach("refused"); return; }
	if( n%8==0 ) vp_assert((q != NULL)==(n>=sizeof(struct HarbolMemNode)+8), "a block when there is space for one");
	if( q ) { vp_assert(q>=(uint8_t*)buf && q<(uint8_t*)buf+n, "in the buffer"); *q = 1; }
	vp_reach("end");
}
//@job A04 func=H_mempool_history engine=sx defs=STEPS=5,SDIV=24,SMAX=72
//@job A04 func=H_mempool_history engine=sx defs=STEPS=10,SMAX=0,POOL=352
//@job A04 func=H_mempool_history engine=sx defs=STEPS=5,SDIV=48,SMAX=96,RESIZE cost=20
//@job A04 func=H_mempool_history engine=sx defs=STEPS=4,SDIV=48,SMAX=96,RESIZE,FROMBUF
//@job A05 func=H_mempool_reclaim engine=sx defs=STEPS=4,SDIV=24,SMAX=72,FROMBUF
//@job A04 func=H_mempool_refused engine=sx
//@job A04 func=H_mempool_refused engine=sx defs=FROMBUF
//@job A04 func=H_mempool_make engine=sx
//@job A04 func=H_mempool_history engine=sx defs=STEPS=7,SDIV=24,SMAX=48,POOL=400 tier=thorough
//@job A04 func=H_mempool_history engine=sx defs=STEPS=6,SDIV=24,SMAX=72,RESIZE tier=thorough
//@job A05 func=H_mempool_reclaim engine=sx defs=STEPS=4,SDIV=24,SMAX=72
//@job A05 func=H_mempool_reclaim engine=sx defs=STEPS=7,SMAX=0
//@job A05 func=H_mempool_reclaim engine=sx defs=STEPS=4,SDIV=48,SMAX=96,RESIZE
//@job A05 func=H_mempool_reclaim engine=sx defs=STEPS=6,SDIV=24,SMAX=48 tier=thorough
//@job A04 func=H_mempool_lists engine=sx defs=POOL=1200,BASE=40,STRIDE=40,KINDS=3
//@job A05 func=H_mempool_lists engine=sx defs=POOL=2400,BASE=256,STRIDE=80,KINDS=3
