// HarbolDeque: symbolic push/pop histories against a two-ended sequence model.
//@src deque/deque.c
#include "vp.h"
#include "deque/deque.h"
#ifndef INIT
#define INIT 3
#endif
#ifndef STEPS
#define STEPS 6
#endif
#ifndef FAILS
#define FAILS 0
#endif
static struct HarbolDeque D;
static uint8_t mv[2*STEPS+1]; static size_t mid[2*STEPS+1]; static size_t lo, hi;   /* model: mv[lo..hi) */

static void check(void){
	vp_assert(harbol_deque_count(&D)==hi-lo, "count");
	vp_assert(harbol_deque_empty(&D)==(hi==lo), "empty");
	uint8_t *f = harbol_deque_get_front(&D), *b = harbol_deque_get_back(&D);
	if( hi==lo ) { vp_assert(f==NULL && b==NULL && harbol_deque_head(&D)==SIZE_MAX && harbol_deque_tail(&D)==SIZE_MAX, "nothing at the ends of an empty deque"); return; }
	vp_assert(f && b && *f==mv[lo] && *b==mv[hi-1], "front and back value");
	size_t n = harbol_deque_head(&D);
	for( size_t i=0; i<STEPS; i++ ) if( lo+i < hi ) {
		vp_assert(n==mid[lo+i], "forward order of nodes");
		uint8_t *d = harbol_deque_get_data(&D, n);
		vp_assert(d && *d==mv[lo+i], "node keeps its value");
		n = harbol_deque_next(&D, n);
	}
	vp_assert(n==SIZE_MAX, "forward walk ends after the last node");
	n = harbol_deque_tail(&D);
	for( size_t i=0; i<STEPS; i++ ) if( lo+i < hi ) {
		vp_assert(n==mid[hi-1-i], "backward order of nodes");
		n = harbol_deque_prev(&D, n);
	}
	vp_assert(n==SIZE_MAX, "backward walk ends after the first node");
}
static void push(bool front){
	uint8_t v = vp_u8();
	size_t f0 = vp_failed;
	vp_alloc_may_fail = FAILS;
	size_t id = front? harbol_deque_prepend(&D, &v, 1) : harbol_deque_append(&D, &v, 1);
	vp_alloc_may_fail = 0;
	vp_assert((id != SIZE_MAX) == (vp_failed==f0), "push succeeds unless memory ran out");
	if( id==SIZE_MAX ) return;
	for( size_t i=0;i<STEPS;i++ ) if( lo+i<hi ) vp_assert(mid[lo+i]!=id, "a new node has its own index");
	if( front ) { lo--; mv[lo]=v; mid[lo]=id; }
	else { mv[hi]=v; mid[hi]=id; hi++; }
}
static void pop(bool front){
	uint8_t v = 0xEE;
	bool r = front? harbol_deque_pop_front(&D, &v, 1) : harbol_deque_pop_back(&D, &v, 1);
	vp_assert(r==(hi>lo), "pop succeeds exactly on a non-empty deque");
	if( r ) { vp_assert(v==mv[front? lo : hi-1], "popped value"); if( front ) lo++; else hi--; }
}
static void start(void){
	bool ok=false;
	D = harbol_deque_make(INIT, &ok);
	vp_assert(ok, "make");
	lo = hi = STEPS;
}
/* the push/pop pattern is concrete (so capacities stay concrete), the ends and the values are symbolic;
 * pin() states the length and capacity as checked facts and hands them to the symbolic executor as constants */
static size_t cnt;
static void pin(size_t cap){
	vp_assert(D.len==cnt, "count");
	vp_assert(D.cap >= cnt, "capacity holds the elements");
	if( !FAILS ) D.len = cnt;
	if( !FAILS && D.cap==cap ) D.cap = cap;
}
static void pattern(unsigned pat, unsigned n){
	start();
	size_t cap = INIT; cnt = 0;
	for( unsigned s=0;s<n;s++ ) {
		bool front = vp_bool();
		if( (pat>>s)&1 ) { if( cnt==cap ) cap *= 2; push(front); cnt = FAILS? hi-lo : cnt+1; }
		else { pop(front); cnt -= cnt>0; }
		pin(cap);
		check();
	}
}
static void finish(void){
	if( vp_bool() ) { harbol_deque_reset(&D); lo=hi=STEPS; check(); vp_assert(vp_live==3, "reset releases every element"); push(vp_bool()); check(); }
	harbol_deque_clear(&D);
	vp_assert(vp_live==0, "clear releases everything");
	vp_reach("end");
}
//@job C04 func=H_deque_pat unwind=14 defs=INIT=1,STEPS=5,PAT=0x1f
//@job C04 func=H_deque_pat unwind=14 defs=INIT=2,STEPS=6,PAT=0x3b
//@job C04 func=H_deque_pat unwind=14 defs=INIT=2,STEPS=7,PAT=0x67 tier=thorough
//@job C04 func=H_deque_pat unwind=14 defs=INIT=4,STEPS=6,PAT=0x39
//@job C04 func=H_deque_pat unwind=14 defs=INIT=3,STEPS=6,PAT=0x2d
//@job C04 func=H_deque_pat unwind=20 defs=INIT=3,STEPS=8,PAT=0xe7 tier=thorough
//@job C04 func=H_deque_pat unwind=20 defs=INIT=2,STEPS=9,PAT=0x1b7 tier=thorough
#ifndef PAT
#define PAT 0x1f
#endif
void H_deque_pat(void){ pattern(PAT, STEPS); finish(); }
//@job O01 func=H_deque_oom unwind=14 defs=INIT=2,STEPS=3,FAILS=1,PAT=3
void H_deque_oom(void){
	pattern(PAT, 2);
	harbol_deque_clear(&D);
	vp_assert(vp_live==0, "clear releases everything");
	bool ok=false;
	struct HarbolDeque z = harbol_deque_make(0, &ok);
	if( ok ) harbol_deque_clear(&z);
	vp_alloc_may_fail = 1;
	size_t f0 = vp_failed;
	struct HarbolDeque *p = harbol_deque_new(2);
	vp_assert((p!=NULL)==(vp_failed==f0), "new");
	harbol_deque_free(&p);
	vp_assert(p==NULL && vp_live==0, "released");
	if( vp_failed > 1 ) vp_reach("failures");
}
/* every history of pushes and pops at both ends, with a reset somewhere */
//@job C04 func=H_deque_any engine=sx unwind=1 defs=INIT=1,STEPS=8,RESET=8 cost=20
//@job C04 func=H_deque_any engine=sx unwind=1 defs=INIT=3,STEPS=7,RESET=3 cost=20
//@job C04 func=H_deque_any engine=sx unwind=1 defs=INIT=2,STEPS=10,RESET=10 tier=thorough timeout=800 steps=400000000
#ifndef RESET
#define RESET STEPS
#endif
void H_deque_any(void){
	start();
	for( unsigned s=0;s<STEPS;s++ ) {
		if( s==RESET ) { harbol_deque_reset(&D); lo = hi = STEPS; check(); vp_assert(vp_live==3, "reset releases every element"); }
		bool const front = vp_bool();
		if( vp_bool() ) push(front); else pop(front);
		check();
	}
	harbol_deque_clear(&D);
	vp_assert(vp_live==0, "clear releases everything");
	vp_reach("history");
}
/* more and larger values */
//@job C04 func=H_deque_large engine=sx unwind=1
void H_deque_large(void){
	static size_t const zs[] = {1, 9, 33, 100};
	static uint8_t tag[64]; static size_t sz[64]; size_t a = 32, b = 32; bool ok = false;
	struct HarbolDeque q = harbol_deque_make(vp_pick(0, 1)? 16 : 2, &ok); vp_assert(ok, "make");
	size_t const runs[] = {9, 17, 3}; uint8_t v[100];
	for( int r=0;r<3;r++ ) {
		size_t const n = runs[r], how = vp_pick(0, 2), z0 = (size_t)r;
		for( size_t i=0;i<n;i++ ) {
			bool const front = how==0 || (how==2 && (i&1));
			size_t const z = zs[(z0+i)%4]; uint8_t const t = vp_u8();
			memset(v, t, z); v[z-1] = (uint8_t)~t; v[0] = t;
			vp_assert((front? harbol_deque_prepend(&q, v, z) : harbol_deque_append(&q, v, z))!=SIZE_MAX, "put in");
			if( front ) { a--; tag[a] = t; sz[a] = z; } else { tag[b] = t; sz[b] = z; b++; }
		}
		size_t const out = r==0? vp_pick(0, 1)*9 : vp_pick(0, 2)*5; bool const back = vp_bool();
		for( size_t i=0;i<out && a<b;i++ ) {
			size_t const w = back? b-1 : a;
			vp_assert(back? harbol_deque_pop_back(&q, v, sz[w]) : harbol_deque_pop_front(&q, v, sz[w]), "taken out");
			vp_assert(v[0]==tag[w] && (sz[w]<2 || v[sz[w]-1]==(uint8_t)~tag[w]), "the value taken out");
			if( back ) b--; else a++;
		}
		vp_assert(harbol_deque_count(&q)==b-a && harbol_deque_empty(&q)==(a==b), "count");
		size_t n1 = harbol_deque_head(&q);
		for( size_t i=a;i<b;i++ ) { uint8_t const *d = harbol_deque_get_data(&q, n1); vp_assert(d && d[0]==tag[i] && (sz[i]<2 || d[sz[i]-1]==(uint8_t)~tag[i]) && (sz[i]<3 || d[sz[i]/2]==tag[i]), "front to back"); n1 = harbol_deque_next(&q, n1); }
		vp_assert(n1==SIZE_MAX, "the end");
		n1 = harbol_deque_tail(&q);
		for( size_t i=b;i>a;i-- ) { uint8_t const *d = harbol_deque_get_data(&q, n1); vp_assert(d && d[0]==tag[i-1], "back to front"); n1 = harbol_deque_prev(&q, n1); }
		vp_assert(n1==SIZE_MAX, "the beginning");
		if( b-a>20 ) vp_reach("many");
	}
	harbol_deque_clear(&q);
	vp_assert(vp_live==0, "released");
}
