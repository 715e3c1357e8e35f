// HarbolMap against a list-of-pairs model: short histories of operations of given kinds (OPS, one hex digit per step, first step = lowest digit)
// with symbolic keys, values, indices and hash seed (so every collision pattern occurs).
//@src map/map.c
#include "vp.h"
#include "map/map.h"
#ifndef CAP
#define CAP 2
#endif
#ifndef OPS
#define OPS 0x111
#endif
#ifndef STEPS
#define STEPS 3
#endif
#ifndef KL      /* bit i: key of step i has 2 bytes, else 1 */
#define KL 0
#endif
#ifndef VL      /* bit i: value of step i has 2 bytes, else 1 */
#define VL 0
#endif
#ifndef FAILS
#define FAILS 0
#endif
#ifndef SEEDS
#define SEEDS 15
#endif
extern int vp_randmask;
#define MAXE 6
static struct HarbolMap M;
static uint8_t rk[MAXE+1][2], rv[MAXE+1][2]; static size_t rkl[MAXE+1], rvl[MAXE+1], rn, rcap;
static size_t find(uint8_t const k[2], size_t kl){
	for( size_t i=0;i<MAXE;i++ ) if( i<rn && rkl[i]==kl && rk[i][0]==k[0] && (kl<2 || rk[i][1]==k[1]) ) return i;
	return SIZE_MAX;
}
static void rm(size_t n){
	for( size_t i=0;i<MAXE;i++ ) if( i>=n && i+1<rn ) { rkl[i]=rkl[i+1]; rvl[i]=rvl[i+1]; rk[i][0]=rk[i+1][0]; rk[i][1]=rk[i+1][1]; rv[i][0]=rv[i+1][0]; rv[i][1]=rv[i+1][1]; }
	rn--;
}
static void setv(size_t i, uint8_t const v[2], size_t vl){ rvl[i]=vl; rv[i][0]=v[0]; rv[i][1]=v[1]; }
static void push(uint8_t const k[2], size_t kl, uint8_t const v[2], size_t vl){ rkl[rn]=kl; rk[rn][0]=k[0]; rk[rn][1]=k[1]; setv(rn, v, vl); rn++; }
static void step(unsigned op, size_t kl, size_t vl){
	uint8_t k[2] = {vp_u8(), vp_u8()}, v[2] = {vp_u8(), vp_u8()};
	size_t const f0 = vp_failed, at = find(k, kl);
	vp_alloc_may_fail = FAILS && op!=8;
	bool r;
	switch( op ) {
	case 1:
		r = harbol_map_insert(&M, k, kl, v, vl);
		if( at!=SIZE_MAX ) vp_assert(!r, "inserting a present key is refused");
		else { vp_assert(r==(vp_failed==f0), "insertion of a new key succeeds unless memory ran out"); if( r ) push(k, kl, v, vl); }
		break;
	case 8:   /* a new key, memory suffices; keeps the table's dimensions concrete */
		vp_assume(at==SIZE_MAX);
		r = harbol_map_insert(&M, k, kl, v, vl);
		vp_assert(r, "insertion of a new key succeeds");
		push(k, kl, v, vl);
		vp_assert(M.len==rn, "number of entries"); M.len = rn;
		if( rn > rcap ) rcap = rcap? rcap*2 : 1;
		vp_assume(M.cap==rcap); M.cap = rcap;   /* growth policy: other policies are outside the bound */
		break;
	case 2:
		r = harbol_map_key_set(&M, k, kl, v, vl);
		vp_assert(r==(vp_failed==f0), "setting a key succeeds unless memory ran out");
		if( r ) { if( at!=SIZE_MAX ) setv(at, v, vl); else push(k, kl, v, vl); }
		break;
	case 3: {
		size_t i = vp_u64();
		r = harbol_map_idx_set(&M, i, v, vl);
		if( i>=rn ) vp_assert(!r, "index out of range is refused");
		else { vp_assert(r==(vp_failed==f0), "setting an index succeeds unless memory ran out"); if( r ) setv(i, v, vl); }
		break; }
	case 4:
		r = harbol_map_key_rm(&M, k, kl);
		vp_assert(r==(at!=SIZE_MAX), "removal succeeds exactly for a present key");
		if( r ) rm(at);
		break;
	case 5: {
		size_t i = vp_u64();
		r = harbol_map_idx_rm(&M, i);
		vp_assert(r==(i<rn), "removal by index succeeds exactly for an index in range");
		if( r ) rm(i);
		break; }
	case 6: {
		size_t const c = M.cap + 1;
		r = harbol_map_rehash(&M, c);
		vp_assert(r==(vp_failed==f0), "resizing the table succeeds unless memory ran out");
		break; }
	case 7: {
		r = harbol_map_rehash(&M, 1);
		if( rn<=1 ) vp_assert(r==(vp_failed==f0), "shrinking the table to its contents succeeds");
		else vp_assert(!r, "shrinking the table below its contents is refused");
		break; }
	}
	vp_alloc_may_fail = 0;
}
static void check(void){
	vp_assert(M.len==rn, "number of entries");
	uint8_t q[2] = {vp_u8(), vp_u8()}; size_t const ql = vp_bool()? 2 : 1;
	size_t const at = find(q, ql);
	vp_assert(harbol_map_get_entry_index(&M, q, ql)==at, "lookup finds exactly the entry with this key");
	vp_assert(harbol_map_has_key(&M, q, ql)==(at!=SIZE_MAX), "has_key");
	uint8_t const *d = harbol_map_key_get(&M, q, ql);
	vp_assert((d!=NULL)==(at!=SIZE_MAX), "key_get finds exactly present keys");
	if( d ) vp_assert(d[0]==rv[at][0] && (rvl[at]<2 || d[1]==rv[at][1]), "key_get yields the value last stored");
}
static void check_idx(void){
	vp_assert(M.len==rn, "number of entries");
	size_t const j = vp_u64();
	uint8_t const *d = harbol_map_idx_get(&M, j);
	vp_assert((d!=NULL)==(j<rn), "idx_get answers exactly indices in range");
	if( d ) {
		vp_assert(d[0]==rv[j][0] && (rvl[j]<2 || d[1]==rv[j][1]) && M.datalens[j]==rvl[j], "value and its size at an index");
		vp_assert(M.keylens[j]==rkl[j] && M.keys[j][0]==rk[j][0] && (rkl[j]<2 || M.keys[j][1]==rk[j][1]), "entries stay in insertion order");
	}
	uint8_t v[2] = {vp_u8(), vp_u8()}; size_t const vl = vp_bool()? 2 : 1, kl0 = 77; size_t kl = kl0, want = SIZE_MAX;
	for( size_t i=MAXE;i>0;i-- ) if( i-1<rn && rvl[i-1]==vl && rv[i-1][0]==v[0] && (vl<2 || rv[i-1][1]==v[1]) ) want = i-1;
	vp_assert(harbol_map_idx_val(&M, v, vl)==want, "search by value finds the first entry with that value");
	uint8_t const *key = harbol_map_key_val(&M, v, vl, &kl);
	vp_assert((key!=NULL)==(want!=SIZE_MAX), "key_val answers exactly for present values");
	if( key ) vp_assert(kl==rkl[want] && key[0]==rk[want][0], "key_val yields the key of that entry");
}
static void run(void){
	bool ok=false;
	vp_randmask = SEEDS;
	M = harbol_map_make(CAP, &ok);
	vp_assert(ok, "make"); rcap = CAP;
	for( unsigned i=0;i<STEPS;i++ ) step((unsigned)(((uint64_t)OPS >> (4*i)) & 15), 1+((KL>>i)&1), 1+((VL>>i)&1));
}
//@job C05 func=H_map_dict unwind=8 defs=VP_LOOPMEM,CAP=4,STEPS=3,OPS=0x118,KL=2
//@job C05 func=H_map_dict unwind=8 defs=VP_LOOPMEM,CAP=3,STEPS=3,OPS=0x888
//@job C05 func=H_map_dict unwind=8 defs=VP_LOOPMEM,CAP=4,STEPS=4,OPS=0x4888
//@job C05 func=H_map_dict unwind=8 defs=VP_LOOPMEM,CAP=2,STEPS=4,OPS=0x4888,KL=2
//@job C05 func=H_map_dict unwind=8 defs=VP_LOOPMEM,CAP=4,STEPS=4,OPS=0x2588
//@job C05 func=H_map_dict unwind=8 defs=VP_LOOPMEM,CAP=0,STEPS=3,OPS=0x288
//@job C05 func=H_map_dict unwind=8 defs=VP_LOOPMEM,CAP=2,STEPS=3,OPS=0x688,KL=1
//@job C05 func=H_map_dict unwind=8 defs=VP_LOOPMEM,CAP=4,STEPS=3,OPS=0x788
//@job C05 func=H_map_dict unwind=10 defs=VP_LOOPMEM,CAP=3,STEPS=4,OPS=0x1888 tier=thorough
//@job C05 func=H_map_dict unwind=10 defs=VP_LOOPMEM,CAP=4,STEPS=5,OPS=0x14888,KL=16 tier=thorough
//@job C05 func=H_map_dict unwind=10 defs=VP_LOOPMEM,CAP=2,STEPS=5,OPS=0x44888,SEEDS=0x7fffffff tier=thorough
//@job C05 func=H_map_dict unwind=10 defs=VP_LOOPMEM,CAP=8,STEPS=4,OPS=0x4888,SEEDS=255 tier=thorough
//@job O01 func=H_map_dict unwind=8 defs=VP_LOOPMEM,CAP=1,STEPS=2,OPS=0x18,FAILS=1
//@job O01 func=H_map_order unwind=8 defs=VP_LOOPMEM,CAP=2,STEPS=3,OPS=0x288,FAILS=1
//@job O01 func=H_map_order unwind=8 defs=VP_LOOPMEM,CAP=2,STEPS=3,OPS=0x388,FAILS=1,VL=4
void H_map_dict(void){
	run(); check();
	if( rn>=1 ) vp_reach("entries");
	harbol_map_clear(&M);
	vp_assert(vp_live==0 && M.len==0, "everything released");
}
//@job C06 func=H_map_order unwind=8 defs=VP_LOOPMEM,CAP=4,STEPS=4,OPS=0x5888,VL=2
//@job C06 func=H_map_order unwind=8 defs=VP_LOOPMEM,CAP=4,STEPS=4,OPS=0x3888,VL=12
//@job C06 func=H_map_order unwind=8 defs=VP_LOOPMEM,CAP=4,STEPS=4,OPS=0x4588
//@job C06 func=H_map_order unwind=8 defs=VP_LOOPMEM,CAP=2,STEPS=4,OPS=0x2888,VL=8
//@job C06 func=H_map_order unwind=8 defs=VP_LOOPMEM,CAP=3,STEPS=4,OPS=0x6888,VL=1,KL=2
//@job C06 func=H_map_order unwind=8 defs=VP_LOOPMEM,CAP=4,STEPS=4,OPS=0x1588,VL=1
void H_map_order(void){
	run(); check_idx();
	if( rn>=1 ) vp_reach("entries");
	harbol_map_clear(&M);
	vp_assert(vp_live==0 && M.len==0, "everything released");
}

//@job C05 func=H_map_zero unwind=8 defs=VP_LOOPMEM
void H_map_zero(void){
	bool ok=false;
	vp_randmask = SEEDS;
	M = harbol_map_make(2, &ok);
	uint8_t k = vp_u8(), v = vp_u8(), none = 0;
	vp_assert(ok && harbol_map_insert(&M, &none, 0, &v, 1) && harbol_map_insert(&M, &k, 1, &none, 0), "empty key and empty value");
	vp_assert(harbol_map_get_entry_index(&M, &none, 0)==0 && harbol_map_get_entry_index(&M, &k, 1)==1, "empty key is a key of its own");
	vp_assert(!harbol_map_insert(&M, &none, 0, &v, 1), "empty key is present");
	vp_assert(harbol_map_idx_val(&M, &v, 1)==0 && harbol_map_idx_val(&M, &none, 0)==1, "empty value is a value of its own");
	vp_reach("end");
	harbol_map_clear(&M);
	vp_assert(vp_live==0, "released");
}
//@job O01 func=H_map_new unwind=8 defs=VP_LOOPMEM
void H_map_new(void){
	vp_alloc_may_fail = 1;
	struct HarbolMap *m = harbol_map_new(2);
	vp_assert((m!=NULL)==(vp_failed==0), "creation fails exactly when memory ran out");
	if( m ) {
		vp_alloc_may_fail = 0;
		uint8_t k = vp_u8(), v = 1;
		vp_assert(m->len==0 && m->cap>=2, "empty"); vp_assume(m->cap==2); m->cap = 2; m->len = 0;
		vp_assert(harbol_map_insert(m, &k, 1, &v, 1), "usable");
		harbol_map_free(&m); vp_assert(m==NULL, "pointer cleared"); vp_reach("created");
	}
	vp_assert(vp_live==0, "nothing leaks");
}
/* longer histories over a few keys (several table sizes and hash seeds, so that they collide in several ways); values are arbitrary */
#ifndef HSTEPS
#define HSTEPS 5
#endif
static uint8_t const HK[4][2] = {{'a',0},{'b',0},{'a','b'},{'a',0}}; static size_t const HL[4] = {1,1,2,2};
static void all(void){
	vp_assert(M.len==rn, "number of entries");
	for( int q=0;q<4;q++ ) {
		size_t const at = find(HK[q], HL[q]);
		vp_assert(harbol_map_get_entry_index(&M, HK[q], HL[q])==at && harbol_map_has_key(&M, HK[q], HL[q])==(at!=SIZE_MAX), "lookup finds exactly the entry with this key");
		uint8_t const *d = harbol_map_key_get(&M, HK[q], HL[q]);
		vp_assert((d!=NULL)==(at!=SIZE_MAX), "key_get finds exactly present keys");
		if( d ) vp_assert(d[0]==rv[at][0] && (rvl[at]<2 || d[1]==rv[at][1]), "key_get yields the value last stored");
	}
	for( size_t i=0;i<=rn;i++ ) {
		uint8_t const *d = harbol_map_idx_get(&M, i);
		vp_assert((d!=NULL)==(i<rn), "idx_get answers exactly indices in range");
		if( d ) vp_assert(M.datalens[i]==rvl[i] && d[0]==rv[i][0] && (rvl[i]<2 || d[1]==rv[i][1]) && M.keylens[i]==rkl[i] && M.keys[i][0]==rk[i][0] && (rkl[i]<2 || M.keys[i][1]==rk[i][1]), "entries stay in insertion order with their values");
	}
}
//@job C05 func=H_map_hist engine=sx unwind=1 defs=HSTEPS=4 cost=20
//@job C05 func=H_map_hist engine=sx unwind=1 defs=HSTEPS=5,ONECAP=4,ONESEED=0 cost=20
//@job C05 func=H_map_hist engine=sx unwind=1 defs=HSTEPS=5,ONECAP=3,ONESEED=5 cost=20
//@job C05 func=H_map_hist engine=sx unwind=1 defs=HSTEPS=5 tier=thorough timeout=800 steps=400000000
void H_map_hist(void){
	bool ok = false;
	vp_randmask = 0;
	static uint64_t const seeds[] = {0, 1, 2, 5};
#ifdef ONECAP
	size_t const cap = ONECAP;
#else
	static size_t const caps[] = {0, 1, 2, 4};
	size_t const cap = caps[vp_pick(0, 3)];
#endif
	M = harbol_map_make(cap, &ok);
	vp_assert(ok || cap==0, "make");
#ifdef ONESEED
	M.seed = ONESEED;
	(void)seeds;
#else
	M.seed = seeds[vp_pick(0, 3)];
#endif
	for( int s=0;s<HSTEPS;s++ ) {
		size_t const op = s<2? 0 : vp_pick(0, 3), q = vp_pick(0, 3), vl = s&1? 2 : 1;
		uint8_t v[2] = {vp_u8(), vp_u8()};
		size_t const at = find(HK[q], HL[q]);
		bool r;
		switch( op ) {
		case 0:
			r = harbol_map_insert(&M, HK[q], HL[q], v, vl);
			vp_assert(r==(at==SIZE_MAX), "insertion succeeds exactly for a new key");
			if( r ) push(HK[q], HL[q], v, vl);
			break;
		case 1:
			vp_assert(harbol_map_key_set(&M, HK[q], HL[q], v, vl), "setting a key succeeds");
			if( at!=SIZE_MAX ) setv(at, v, vl); else push(HK[q], HL[q], v, vl);
			break;
		case 2:
			vp_assert(harbol_map_key_rm(&M, HK[q], HL[q])==(at!=SIZE_MAX), "removal succeeds exactly for a present key");
			if( at!=SIZE_MAX ) rm(at);
			break;
		default:
			if( q<2 ) {
				vp_assert(harbol_map_idx_rm(&M, q)==(q<rn), "removal by index succeeds exactly for an index in range");
				if( q<rn ) rm(q);
			} else if( q==2 ) {
				vp_assert(harbol_map_rehash(&M, rn+1), "the table can be made as large as its contents need");
			} else {
				vp_assert(harbol_map_idx_set(&M, 1, v, vl)==(1<rn), "setting by index succeeds exactly for an index in range");
				if( 1<rn ) setv(1, v, vl);
			}
		}
		all();
	}
	vp_reach("history");
	harbol_map_clear(&M);
	vp_assert(vp_live==0 && M.len==0, "everything released");
}
/* keys whose hashes coincide whatever the seed: they are still different keys */
//@job C05 func=H_map_twins engine=sx unwind=1 cost=15
void H_map_twins(void){
	static signed char const off[2][11] = {{-16,27,-17,23,15,8,-19,-17,-18,-6,26}, {23,-9,-15,13,-17,4,-3,-34,-23,23,-32}};
	uint8_t k[3][11];
	for( int i=0;i<11;i++ ) { k[0][i] = 90; k[1][i] = (uint8_t)(90 + off[0][i]); k[2][i] = (uint8_t)(90 + off[1][i]); }
	bool ok = false, in[3] = {0}; uint8_t val[3] = {0}; size_t n = 0;
	vp_randmask = 0;
	struct HarbolMap m = harbol_map_make(vp_pick(0, 4), &ok);
	m.seed = vp_pick(0, 1)? 12345 : 0;
	for( int s=0;s<4;s++ ) {
		size_t const q = vp_pick(0, 2), op = vp_pick(0, 2);
		uint8_t v = vp_u8();
		if( op==0 ) {
			bool const r = harbol_map_insert(&m, k[q], 11, &v, 1);
			vp_assert(r==!in[q], "insertion succeeds exactly for a new key");
			if( r ) { in[q] = true; val[q] = v; n++; }
		} else if( op==1 ) {
			vp_assert(harbol_map_key_set(&m, k[q], 11, &v, 1), "setting a key succeeds");
			n += !in[q]; in[q] = true; val[q] = v;
		} else {
			vp_assert(harbol_map_key_rm(&m, k[q], 11)==in[q], "removal succeeds exactly for a present key");
			n -= in[q]; in[q] = false;
		}
		vp_assert(m.len==n, "number of entries");
		for( int i=0;i<3;i++ ) {
			uint8_t const *d = harbol_map_key_get(&m, k[i], 11);
			vp_assert((d!=NULL)==in[i] && harbol_map_has_key(&m, k[i], 11)==in[i], "lookup finds exactly the entry with this key");
			if( d ) vp_assert(*d==val[i], "the value last stored under this key");
		}
	}
	harbol_map_clear(&m);
	vp_assert(vp_live==0, "everything released");
	vp_reach("end");
}
/* longer keys and values, and more of them: nothing depends on a length or a count */
#define BK 24
static size_t bkl(size_t i){ static size_t const l[] = {1, 8, 9, 16, 33, 65, 130, 7}; return l[i%8]; }
static size_t bvl(size_t i){ static size_t const l[] = {8, 1, 9, 40, 64, 2, 100, 4}; return l[i%8]; }
static void bkey(uint8_t *k, size_t i){ for( size_t j=0;j<bkl(i);j++ ) k[j] = (uint8_t)(j*31 + (j+1==bkl(i)? i : 0)); }
static void big_all(struct HarbolMap *m, size_t const *ord, size_t n, uint8_t const (*v0)[2], size_t nk){
	vp_assert(m->len==n, "number of entries");
	for( size_t i=0;i<nk;i++ ) {
		uint8_t k[130]; bkey(k, i);
		size_t at = SIZE_MAX; for( size_t j=0;j<n;j++ ) if( ord[j]==i ) at = j;
		vp_assert(harbol_map_has_key(m, k, bkl(i))==(at!=SIZE_MAX) && harbol_map_get_entry_index(m, k, bkl(i))==at, "lookup finds exactly the entry with this key");
		uint8_t const *d = harbol_map_key_get(m, k, bkl(i));
		vp_assert((d!=NULL)==(at!=SIZE_MAX) && d==(uint8_t*)harbol_map_idx_get(m, at), "the value under this key");
		if( d ) vp_assert(m->datalens[at]==bvl(i) && d[0]==v0[i][0] && d[bvl(i)-1]==v0[i][bvl(i)>1] && (bvl(i)<3 || d[bvl(i)/2]==7), "the value last stored under this key");
	}
	vp_assert(harbol_map_idx_get(m, n)==NULL, "nothing past the end");
}
//@job C05 func=H_map_big engine=sx unwind=1 defs=FEWER cost=15
//@job C06 func=H_map_big engine=sx unwind=1 defs=FEWER cost=15
//@job C05 func=H_map_big engine=sx unwind=1 tier=thorough
void H_map_big(void){
	bool ok = false; size_t ord[BK], n = 0; uint8_t v0[BK][2], k[130], v[100];
	vp_randmask = 0;
#ifdef FEWER
	struct HarbolMap m = harbol_map_make(vp_pick(0, 1)? 8 : 0, &ok);
	m.seed = 99;
	size_t const nk = vp_pick(0, 1)? 17 : 9;
#else
	static size_t const caps[] = {0, 3, 8, 16}, nks[] = {9, 17, 24};
	struct HarbolMap m = harbol_map_make(caps[vp_pick(0, 3)], &ok);
	m.seed = vp_pick(0, 1)? 99 : 0;
	size_t const nk = nks[vp_pick(0, 2)];
#endif
	for( size_t i=0;i<nk;i++ ) {
		bkey(k, i); memset(v, 7, sizeof v); v[0] = v0[i][0] = vp_u8(); if( bvl(i)>1 ) v[bvl(i)-1] = v0[i][1] = vp_u8();
		bool const set = i&1;
		vp_assert(set? harbol_map_key_set(&m, k, bkl(i), v, bvl(i)) : harbol_map_insert(&m, k, bkl(i), v, bvl(i)), "a new key is taken");
		ord[n++] = i;
		vp_assert(!harbol_map_insert(&m, k, bkl(i), v, 1), "a present key is refused");
	}
	big_all(&m, ord, n, v0, nk);
	for( int s=0;s<2;s++ ) {
		size_t const at[] = {0, 1, n/2, n-1, n}, p = at[vp_pick(0, 4)], op = vp_pick(0, 3);
		if( op==0 ) {
			vp_assert(harbol_map_idx_rm(&m, p)==(p<n), "removal by index succeeds exactly for an index in range");
			if( p<n ) { memmove(ord+p, ord+p+1, (n-p-1)*sizeof *ord); n--; }
		} else if( op==1 && p<n ) {
			bkey(k, ord[p]);
			vp_assert(harbol_map_key_rm(&m, k, bkl(ord[p])), "removal succeeds for a present key");
			vp_assert(!harbol_map_key_rm(&m, k, bkl(ord[p])), "and not again");
			memmove(ord+p, ord+p+1, (n-p-1)*sizeof *ord); n--;
			vp_reach("removed");
		} else if( op==2 && p<n ) {
			size_t const i = ord[p]; bkey(k, i); memset(v, 7, sizeof v); v[0] = v0[i][0] = vp_u8(); if( bvl(i)>1 ) v[bvl(i)-1] = v0[i][1] = vp_u8();
			vp_assert(vp_pick(0, 1)? harbol_map_idx_set(&m, p, v, bvl(i)) : harbol_map_key_set(&m, k, bkl(i), v, bvl(i)), "a value is replaced");
		} else if( op==3 ) {
			vp_assert(harbol_map_rehash(&m, n+p+1), "the table can be made as large as its contents need");
			vp_assert(!harbol_map_rehash(&m, n? n-1 : 0), "and no smaller");
		}
		big_all(&m, ord, n, v0, nk);
	}
	vp_reach("history");
	harbol_map_clear(&m);
	vp_assert(vp_live==0 && m.len==0, "everything released");
}
