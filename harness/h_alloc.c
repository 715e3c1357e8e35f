// Region, bistack and object-pool allocators.
//@src allocators/region/region.c allocators/bistack/bistack.c allocators/objpool/objpool.c
#include "vp.h"
#include "allocators/region/region.h"
#include "allocators/bistack/bistack.h"
#include "allocators/objpool/objpool.h"
#ifndef CAP
#define CAP 40
#endif
#ifndef OBJ
#define OBJ 8
#endif
#ifndef NB
#define NB 3
#endif
#ifndef STEPS
#define STEPS 6
#endif

/* ---------------- region: one allocation from every fill level ---------------- */
//@job A01 func=H_region_step unwind=4 defs=CAP=40
//@job A01 func=H_region_step unwind=4 defs=CAP=37
void H_region_step(void){
	uint8_t *buf = vp_malloc(CAP);
	struct HarbolRegion r = harbol_region_make_from_buffer(buf, CAP);
	vp_assert(harbol_region_remaining(&r)==CAP, "fresh region offers its whole buffer");
	size_t used = vp_range(0, CAP/8)*8;
	r.offs -= used;                       /* any level reachable by aligned allocations */
	size_t const top = r.offs;
	size_t probe = vp_range(0, CAP-1); buf[probe] = 0xA5;
	size_t n = vp_u64();
	uint8_t *p = harbol_region_alloc(&r, n);
	size_t need = n <= CAP? (n+7)/8*8 : SIZE_MAX;
	if( n==0 || n > CAP || need > top ) {
		vp_assert(p==NULL && r.offs==top, "a request that does not fit is refused and changes nothing");
		if( n > CAP && n > SIZE_MAX-8 ) vp_reach("huge request");
	} else {
		vp_assert(p != NULL, "a request that fits is served");
		vp_assert(p >= buf && (size_t)(p-buf)+n <= top, "block inside the buffer and below every earlier block");
		if( CAP % 8 == 0 ) vp_assert((size_t)(p-buf) % 8 == 0, "block aligned to the pointer size");
		size_t j = vp_range(0, CAP-1); if( j < n ) vp_assert(p[j]==0, "block zeroed");
		vp_assert(probe < top || buf[probe]==0xA5, "earlier blocks untouched");
		vp_assert(harbol_region_remaining(&r) <= (size_t)(p-buf), "remaining never counts handed-out bytes");
#if CAP % 8 == 0
		if( need==top ) vp_reach("last bytes used");
#endif
	}
	vp_assert(harbol_region_remaining(&r)==top-(p? need : 0), "remaining bytes");
}
//@job A01 func=H_region_hist unwind=4
void H_region_hist(void){
	vp_alloc_may_fail = vp_bool();
	struct HarbolRegion r = harbol_region_make(CAP);
	vp_alloc_may_fail = 0;
	if( r.mem==NULL ) {
		vp_assert(vp_failed && harbol_region_alloc(&r, vp_u64())==NULL && harbol_region_remaining(&r)==0, "region without memory serves nothing");
	} else {
		size_t n[3]; uint8_t *p[3];
		vp_assert(vp_failed==0 && harbol_region_remaining(&r)==CAP, "a fresh region offers its whole size");
		for( int i=0;i<3;i++ ) {
			n[i]=vp_u64();
			p[i]=harbol_region_alloc(&r, n[i]);
			if( p[i] ) { vp_assert(n[i] <= CAP && p[i] >= r.mem && (size_t)(p[i]-r.mem) <= CAP-n[i], "inside"); p[i][0]=(uint8_t)(i+1); p[i][n[i]-1]=(uint8_t)(i+1); }
			for( int k=0;k<i;k++ ) if( p[i] && p[k] ) vp_assert(p[k]+n[k] <= p[i] || p[i]+n[i] <= p[k], "live blocks are disjoint");
		}
		for( int i=0;i<3;i++ ) if( p[i] ) vp_assert(p[i][0]==i+1 && p[i][n[i]-1]==i+1, "contents kept");
		if( p[0] && p[1] && p[2] ) vp_reach("three blocks");
	}
	harbol_region_clear(&r);
	vp_assert(r.mem==NULL && r.size==0 && r.offs==0 && vp_live==0 && harbol_region_alloc(&r, 1)==NULL, "cleared");
	struct HarbolRegion z = harbol_region_make(0);
	vp_assert(z.mem==NULL && harbol_region_alloc(&z, vp_u64())==NULL, "empty region serves nothing");
}

/* ---------------- bistack ---------------- */
//@job A02 func=H_bistack_step unwind=4
void H_bistack_step(void){
	uint8_t *buf = vp_malloc(CAP);
	struct HarbolBiStack b = harbol_bistack_make_from_buffer(buf, CAP);
	vp_assert(harbol_bistack_get_margins(b)==CAP, "fresh stack");
	size_t f = vp_range(0, CAP), k = vp_range(0, CAP); vp_assume(f <= k);
	b.front = f; b.back = k;              /* any split reached by earlier allocations */
	size_t n = vp_u64(), probe = vp_range(0, CAP-1);
	buf[probe] = 0xA5;
	size_t need = n <= CAP? (n+7)/8*8 : SIZE_MAX;
	bool front = vp_bool();
	uint8_t *p = front? harbol_bistack_alloc_front(&b, n) : harbol_bistack_alloc_back(&b, n);
	if( p==NULL ) {
		vp_assert(need >= k-f, "a request smaller than the margin is served");
		vp_assert(b.front==f && b.back==k, "a refused request changes nothing");
		if( n > SIZE_MAX-8 ) vp_reach("wrapping request refused");
	} else {
		vp_assert(need <= k-f, "a request larger than the margin is refused");
		vp_assert(p >= buf+f && (size_t)(p-buf)+n <= k, "block inside the free middle, clear of both stacks");
		vp_assert(b.front >= f && b.back <= k && b.front <= b.back, "stacks only grow towards each other");
		vp_assert(front? (size_t)(p-buf)+n <= b.front && b.back==k : (size_t)(p-buf) >= b.back && b.front==f, "block belongs to its own end");
		vp_assert(harbol_bistack_get_margins(b)==k-f-need, "margin shrinks by the aligned size");
		if( n > 0 ) { p[0]=1; p[n-1]=1; }
		vp_assert(probe >= f && probe < k || buf[probe]==0xA5, "earlier blocks untouched");
		if( n > 0 ) { if( front ) vp_reach("front"); else vp_reach("back"); }
	}
}
//@job A02 func=H_bistack_hist unwind=6
void H_bistack_hist(void){
	vp_alloc_may_fail = vp_bool();
	bool ok = false;
	struct HarbolBiStack b = harbol_bistack_make(CAP, &ok);
	vp_assert(ok == (vp_failed==0), "make");
	if( ok ) {
		uint8_t *p[3]; size_t n[3]; bool fr[3], live[3];
		size_t size = CAP;
		for( int i=0;i<3;i++ ) {
			n[i]=vp_u64(); fr[i]=vp_bool(); live[i]=false;
			switch( vp_u8() ) {
			case 0: harbol_bistack_reset_front(&b); for( int k=0;k<i;k++ ) if( fr[k] ) live[k]=false; break;
			case 1: harbol_bistack_reset_back(&b);  for( int k=0;k<i;k++ ) if( !fr[k] ) live[k]=false; break;
			case 2: harbol_bistack_reset_all(&b);   for( int k=0;k<i;k++ ) live[k]=false;
				vp_assert(harbol_bistack_get_margins(b)==size, "reset frees everything"); break;
			default: break;
			}
			p[i] = fr[i]? harbol_bistack_alloc_front(&b, n[i]) : harbol_bistack_alloc_back(&b, n[i]);
			if( p[i] && n[i] > 0 ) {
				live[i]=true;
				vp_assert(n[i] <= size && p[i] >= b.mem && (size_t)(p[i]-b.mem) <= size-n[i], "inside the stack");
				p[i][0]=(uint8_t)(i+1); p[i][n[i]-1]=(uint8_t)(i+1);
				for( int k=0;k<i;k++ ) if( live[k] ) vp_assert(p[k]+n[k] <= p[i] || p[i]+n[i] <= p[k], "live blocks are disjoint");
			}
		}
		for( int i=0;i<3;i++ ) if( live[i] ) vp_assert(p[i][0]==i+1 && p[i][n[i]-1]==i+1, "contents kept");
		if( live[0] && live[1] && live[2] && fr[0] && !fr[1] && fr[2] ) vp_reach("interleaved");
	}
	harbol_bistack_clear(&b);
	vp_assert(b.mem==NULL && vp_live==0 && harbol_bistack_alloc_front(&b, vp_u64())==NULL && harbol_bistack_alloc_back(&b, vp_u64())==NULL, "cleared");
}
//@job A02 func=H_bistack_resize unwind=4 defs=NS=0
//@job A02 func=H_bistack_resize unwind=4 defs=NS=16
//@job A02 func=H_bistack_resize unwind=4 defs=NS=64
#ifndef NS
#define NS 16
#endif
void H_bistack_resize(void){
	bool ok;
	struct HarbolBiStack b = harbol_bistack_make(CAP, &ok);
	b.front = vp_range(0, CAP); b.back = vp_range(0, CAP); vp_assume(b.front <= b.back);
	struct HarbolBiStack const old = b;
	vp_alloc_may_fail = 1;
	bool r = harbol_bistack_resize(&b, NS);
	vp_alloc_may_fail = 0;
	if( r ) {
		vp_assert(b.size==NS && harbol_bistack_get_margins(b)==NS, "resized stack is empty with the new size");
		size_t n = vp_range(1, NS+16);
		uint8_t *p = harbol_bistack_alloc_front(&b, n);
		vp_assert(p==NULL || n <= NS, "front"); if( p ) { p[0]=1; p[n-1]=1; vp_assert(p==b.mem, "front starts at the bottom"); }
		uint8_t *q = harbol_bistack_alloc_back(&b, n);
		vp_assert(q==NULL || n <= NS, "back"); if( q ) { q[0]=1; q[n-1]=1; }
		vp_assert(p==NULL || q==NULL || p+n <= q, "disjoint");
		if( NS==0 || p ) vp_reach("resized");
	} else {
		vp_assert(vp_failed && b.mem==old.mem && b.size==old.size && b.front==old.front && b.back==old.back, "failed resize changes nothing");
		b.mem[CAP-1]=1;
	}
	harbol_bistack_clear(&b);
	vp_assert(vp_live==0, "released");
}

/* ---------------- object pool: symbolic history of allocations and frees ---------------- */
//@job A03 func=H_objpool unwind=10 defs=OBJ=8,NB=3,STEPS=7 cost=30
//@job A03 func=H_objpool unwind=16 defs=OBJ=12,NB=2,STEPS=6
//@job A03 func=H_objpool unwind=20 defs=OBJ=16,NB=4,STEPS=7,FROMBUF=1 cost=30
//@job A03 func=H_objpool unwind=20 defs=OBJ=8,NB=4,STEPS=10 tier=thorough
void H_objpool(void){
	size_t const al = (OBJ+7)/8*8;
	bool ok = false;
	vp_alloc_may_fail = vp_bool();
#ifdef FROMBUF
	uint8_t *buf = vp_malloc(NB*al);
	if( buf==NULL ) return;
	struct HarbolObjPool o = harbol_objpool_from_buffer(buf, OBJ, NB, &ok);
	vp_assert(ok, "from_buffer");
#else
	struct HarbolObjPool o = harbol_objpool_make(OBJ, NB, &ok);
	vp_assert(ok == (vp_failed==0), "make");
#endif
	vp_alloc_may_fail = 0;
	if( !ok ) { vp_assert(harbol_objpool_alloc(&o)==NULL, "no memory, no blocks"); return; }
	uint8_t *const mem = (uint8_t*)o.mem;
	bool live[NB]; uint8_t tag[NB]; size_t nlive=0; uint8_t foreign[OBJ];
	for( int i=0;i<NB;i++ ) live[i]=false;
	bool refill=false;
	for( int s=0; s<STEPS; s++ ) {
		switch( vp_u8() ) {
		case 0: {
			size_t k = vp_range(0, NB-1);
			vp_assume(live[k]);
			void *q = mem + k*al;
			if( vp_bool() ) harbol_objpool_free(&o, q);
			else { harbol_objpool_cleanup(&o, &q); vp_assert(q==NULL, "cleanup nulls the reference"); }
			if( nlive==NB ) refill = true;
			live[k]=false; nlive--;
			break;
		}
		case 1:
			switch( vp_u8() ) { /* pointers the pool never handed out */
			case 0: harbol_objpool_free(&o, NULL); break;
			case 1: harbol_objpool_free(&o, mem + NB*al); break;
			default: harbol_objpool_free(&o, foreign);
			}
			break;
		default: {
			uint8_t *p = harbol_objpool_alloc(&o);
			vp_assert((p==NULL) == (nlive==NB), "a block is served exactly while one is free");
			if( p ) {
				bool in=false;
				for( size_t k=0;k<NB;k++ ) if( p == mem + k*al ) {
					in=true;
					vp_assert(!live[k], "a live block is never handed out again");
					live[k]=true; tag[k]=(uint8_t)(s+1);
					size_t j = vp_range(0, OBJ-1); vp_assert(p[j]==0, "block zeroed");
					for( size_t b=0;b<OBJ;b++ ) p[b]=tag[k];
				}
				vp_assert(in, "block is one of the pool's slots");
				nlive++;
				if( refill && nlive==NB ) vp_reach("full, freed, full again");
			}
		}
		}
		vp_assert(o.free_blocks==NB-nlive, "free count");
	}
	size_t k = vp_range(0, NB-1), b = vp_range(0, OBJ-1);
	if( live[k] ) vp_assert(mem[k*al+b]==tag[k], "live contents kept");
#ifndef FROMBUF
	harbol_objpool_clear(&o);
	vp_assert(vp_live==0 && harbol_objpool_alloc(&o)==NULL, "cleared");
#endif
}
//@job A03 func=H_objpool_args unwind=6
void H_objpool_args(void){
	size_t objsize = vp_u64(), len = vp_u64();
	vp_assume(objsize==0 || len==0 || objsize > VP_MAXALLOC || len > VP_MAXALLOC);
	bool ok = true;
	struct HarbolObjPool o = harbol_objpool_make(objsize, len, &ok);
	vp_assert(!ok && harbol_objpool_alloc(&o)==NULL, "impossible pools are refused");
	if( objsize > SIZE_MAX-7 ) vp_reach("wrapping object size");
}

/* pools over a buffer: only whole words, exactly as many objects as it holds */
//@job A03 engine=sx func=H_objpool_over
void H_objpool_over(void){
	static uint64_t buf[12]; bool r = vp_bool();
	size_t const z = vp_pick(1, 24), n = vp_pick(0, 12); vp_assume(z*n<=sizeof buf);
	for( size_t i=0;i<12;i++ ) buf[i] = 0x5a5a5a5a5a5a5a5aul;
	struct HarbolObjPool o = harbol_objpool_from_buffer(buf, z, n, &r);
	if( r ) { size_t k = 0; while( k<=n && harbol_objpool_alloc(&o) != NULL ) k++; vp_assert(k==n, "as many objects as asked for"); vp_reach("made"); }
	else { vp_assert(z%8 != 0, "whole words are fine"); vp_assert(harbol_objpool_alloc(&o)==NULL, "a pool that was not made gives nothing"); vp_reach("refused"); }
	for( size_t i=(z*n+7)/8;i<12;i++ ) vp_assert(buf[i]==0x5a5a5a5a5a5a5a5aul, "nothing behind the buffer is touched");
}
/* histories over larger pools: requests of many sizes, everything handed out stays as it was filled */
#define LP 1208
//@job A01 engine=sx func=H_region_large
void H_region_large(void){
	static size_t const rq[] = {1, 9, 64, 200, 1000, 1208, SIZE_MAX-3};
	static uint64_t store[LP/8];
	bool const own = vp_pick(0, 1);
	for( size_t i=0;i<LP/8;i++ ) store[i] = 0x5151515151515151u;
	struct HarbolRegion r = own? harbol_region_make(LP) : harbol_region_make_from_buffer(store, LP);
	vp_assert(harbol_region_remaining(&r)==LP, "a fresh region offers its whole size");
	uint8_t *p[4], t[4]; size_t n[4], left = LP; uintptr_t base = 0;
	for( int i=0;i<4;i++ ) {
		n[i] = rq[vp_pick(0, 6)]; t[i] = vp_u8();
		p[i] = harbol_region_alloc(&r, n[i]);
		size_t const need = n[i]<=LP? (n[i]+7)/8*8 : SIZE_MAX;
		vp_assert((p[i]!=NULL)==(need<=left), "served exactly when it fits");
		if( p[i] ) {
			left -= need;
			if( !base ) base = (uintptr_t)p[i];
			vp_assert(((uintptr_t)p[i] - base)%8==0, "aligned");
			for( size_t j=0;j<n[i];j++ ) { vp_assert(p[i][j]==0, "block zeroed"); }
			for( size_t j=0;j<n[i];j+=7 ) p[i][j] = t[i]; p[i][n[i]-1] = t[i];
			for( int k=0;k<i;k++ ) if( p[k] ) vp_assert(p[k]+n[k] <= p[i] || p[i]+n[i] <= p[k], "blocks are disjoint");
		}
		vp_assert(harbol_region_remaining(&r)==left, "remaining bytes");
	}
	for( int i=0;i<4;i++ ) if( p[i] ) for( size_t j=0;j<n[i];j+=7 ) vp_assert(p[i][j]==t[i] && p[i][n[i]-1]==t[i], "contents kept");
	if( left==0 ) vp_reach("full");
	if( own ) { harbol_region_clear(&r); vp_assert(vp_live==0, "released"); }
}
//@job A02 engine=sx func=H_bistack_large
void H_bistack_large(void){
	static size_t const rq[] = {1, 40, 200, 1000, SIZE_MAX-3};
	bool ok = false;
	struct HarbolBiStack b = harbol_bistack_make(LP, &ok); vp_assert(ok, "made");
	uint8_t *p[4], t[4]; size_t n[4]; bool fr[4];
	for( int i=0;i<4;i++ ) {
		p[i] = NULL;
		size_t const op = vp_pick(0, 6), gap = harbol_bistack_get_margins(b);
		if( op==5 ) { harbol_bistack_reset_front(&b); for( int k=0;k<i;k++ ) if( fr[k] ) p[k] = NULL; }
		else if( op==6 ) { harbol_bistack_reset_back(&b); for( int k=0;k<i;k++ ) if( !fr[k] ) p[k] = NULL; }
		else {
			n[i] = rq[op]; fr[i] = vp_bool(); t[i] = vp_u8();
			size_t const need = n[i]<=LP? (n[i]+7)/8*8 : SIZE_MAX;
			p[i] = fr[i]? harbol_bistack_alloc_front(&b, n[i]) : harbol_bistack_alloc_back(&b, n[i]);
			if( need<gap ) vp_assert(p[i]!=NULL, "a request smaller than the gap is served");
			if( need>gap ) vp_assert(p[i]==NULL, "a request larger than the gap is refused");
			if( p[i] ) {
				memset(p[i], t[i], n[i]);
				for( int k=0;k<i;k++ ) if( p[k] ) vp_assert(p[k]+n[k] <= p[i] || p[i]+n[i] <= p[k], "blocks are disjoint");
			}
			vp_assert(harbol_bistack_get_margins(b)==gap-(p[i]? need : 0), "the gap shrinks by what was taken");
		}
		for( int k=0;k<=i;k++ ) if( p[k] ) vp_assert(p[k][0]==t[k] && p[k][n[k]-1]==t[k] && p[k][n[k]/2]==t[k], "contents kept");
		if( !p[i] && op<5 && n[i]<=1000 ) vp_reach("refused");
	}
	harbol_bistack_reset_all(&b);
	vp_assert(harbol_bistack_get_margins(b)==LP, "everything given back");
	harbol_bistack_clear(&b);
	vp_assert(vp_live==0, "released");
}
//@job A03 engine=sx func=H_objpool_large
void H_objpool_large(void){
	static size_t const zs[] = {8, 24, 40, 136};
	size_t const z = zs[vp_pick(0, 3)], n = vp_pick(9, 20); bool ok = false;
	struct HarbolObjPool o = harbol_objpool_make(z, n, &ok); vp_assert(ok, "made");
	uint8_t *p[21], t[21]; size_t got = 0;
	for( ;got<=n;got++ ) { p[got] = harbol_objpool_alloc(&o); if( !p[got] ) break; for( size_t j=0;j<z;j++ ) vp_assert(p[got][j]==0, "zeroed"); t[got] = vp_u8(); memset(p[got], t[got], z); }
	vp_assert(got==n, "exactly as many objects as asked for");
	for( size_t i=0;i<n;i++ ) for( size_t k=0;k<i;k++ ) vp_assert(p[k]+z <= p[i] || p[i]+z <= p[k], "objects are disjoint");
	size_t const a = vp_pick(0, n-1), b = (a+n/2)%n, c = (a+1)%n;
	harbol_objpool_free(&o, p[a]); harbol_objpool_free(&o, p[a]+n*z*2); harbol_objpool_free(&o, p[b]); if( c!=b ) harbol_objpool_free(&o, p[c]);
	size_t const k = c!=b? 3 : 2; uint8_t *q[4]; size_t again = 0;
	for( ;again<4;again++ ) { q[again] = harbol_objpool_alloc(&o); if( !q[again] ) break; vp_assert(q[again]==p[a] || q[again]==p[b] || q[again]==p[c], "a freed object becomes available again"); for( size_t j=0;j<again;j++ ) vp_assert(q[j]!=q[again], "once"); for( size_t j=0;j<z;j++ ) vp_assert(q[again][j]==0, "zeroed"); memset(q[again], 0x77, z); }
	vp_assert(again==k, "as many as were freed");
	for( size_t i=0;i<n;i++ ) if( i!=a && i!=b && i!=c ) for( size_t j=0;j<z;j++ ) vp_assert(p[i][j]==t[i], "the others stay as they were");
	vp_reach("recycled");
	harbol_objpool_clear(&o);
	vp_assert(vp_live==0, "released");
}
