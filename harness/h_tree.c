// HarbolTree: one arbitrary operation on a tree with NKIDS children of arbitrary values, against a
// sequence-of-children model; deeper nesting for release.
//@src tree/tree.c array/array.c
#include "vp.h"
#include "tree/tree.h"
#ifndef NKIDS
#define NKIDS 2
#endif
#define MAXDS 2
#define NK (NKIDS+1)
static struct HarbolTree *T;
static struct HarbolTree *kid[NK]; static uint8_t kd[NK][MAXDS]; static size_t kl[NK], nk;

static size_t find_val(uint8_t const v[], size_t n){
	for( size_t i=0;i<NK;i++ ) if( i<nk && kl[i]==n ) {
		bool same=true;
		for( size_t b=0;b<MAXDS;b++ ) if( b<n && kd[i][b]!=v[b] ) same=false;
		if( same ) return i;
	}
	return SIZE_MAX;
}
static void drop(size_t i){
	for( size_t k=0;k+1<NK;k++ ) if( k>=i && k+1<nk ) { kid[k]=kid[k+1]; kl[k]=kl[k+1]; for( int b=0;b<MAXDS;b++ ) kd[k][b]=kd[k+1][b]; }
	nk--;
}
static void build(void){
	uint8_t v[MAXDS] = {vp_u8(), vp_u8()};
	T = harbol_tree_new(v, 2);
	vp_assert(T && harbol_tree_len(T)==2, "new");
	for( size_t k=0;k<NKIDS;k++ ) {
		kl[k] = 1 + (k & 1);
		kd[k][0]=vp_u8(); kd[k][1]=vp_u8();
		vp_assert(harbol_tree_insert_val(T, kd[k], kl[k]), "insert_val");
		kid[k] = harbol_tree_get_node_by_index(T, k);
		vp_assert(kid[k] != NULL, "inserted child is the last");
		nk++;
	}
}
static void same(void){
	vp_assert(T->kids.len==nk, "number of children");
	size_t j = vp_u64();
	if( j >= nk ) vp_assert(harbol_tree_get_node_by_index(T, j)==NULL, "no child past the end");
	for( size_t i=0;i<NK;i++ ) if( i<nk ) {
		struct HarbolTree *g = harbol_tree_get_node_by_index(T, i);
		vp_assert(g==kid[i], "child at index");
		vp_assert(harbol_tree_len(g)==kl[i], "child length");
		uint8_t *d = harbol_tree_get(g);
		for( size_t b=0;b<MAXDS;b++ ) if( b<kl[i] ) vp_assert(d[b]==kd[i][b], "child value");
	}
}
#ifndef OP
#define OP 0
#endif
//@job C07 func=H_tree_op unwind=5 us=memcmp.0:9,vp_memmove.0:8,vp_memmove.3:8,vp_memcpy.1:8,vp_memset.1:8,vp_memset.2:8,harbol_tree_clear:2,harbol_tree_free:2 defs=VP_LOOPMEM,NKIDS=0
//@job C07 func=H_tree_op unwind=5 us=memcmp.0:9,vp_memmove.0:8,vp_memmove.3:8,vp_memcpy.1:8,vp_memset.1:8,vp_memset.2:8,harbol_tree_clear:2,harbol_tree_free:2 defs=VP_LOOPMEM,NKIDS=2
//@job C07 func=H_tree_op unwind=5 us=memcmp.0:9,vp_memmove.0:8,vp_memmove.3:8,vp_memcpy.1:8,vp_memset.1:8,vp_memset.2:8,harbol_tree_clear:2,harbol_tree_free:2 defs=VP_LOOPMEM,NKIDS=3 cost=30
void H_tree_op(void){
	build();
	uint8_t w[MAXDS] = {vp_u8(), vp_u8()};
	size_t n = vp_range(1, MAXDS), i = vp_u64();
	size_t k = find_val(w, n);
	switch( vp_u8() ) {
	case 0: {
		bool r = harbol_tree_rm_val(T, w, n);
		vp_assert(r == (k != SIZE_MAX), "rm_val removes exactly when a child holds that value");
		if( r ) { drop(k); }
		break;
	}
	case 1: {
		bool r = harbol_tree_rm_index(T, i);
		vp_assert(r == (i < nk), "rm_index removes exactly for an index in range");
		if( r ) { drop(i); }
		break;
	}
	case 2: {
		struct HarbolTree *c = i<nk? kid[i] : T;
		bool r = harbol_tree_rm_node(T, &c);
		vp_assert(r == (i<nk), "rm_node removes exactly a child");
		if( r ) { vp_assert(c==NULL, "reference nulled"); drop(i); }
		break;
	}
	default:
		vp_assert(harbol_tree_get_node_by_val(T, w, n)==(k==SIZE_MAX? NULL : kid[k]), "get_node_by_val finds the first child with that value");
		vp_assert(!harbol_tree_rm_val(T, w, 0) && harbol_tree_get_node_by_val(T, w, 0)==NULL && !harbol_tree_insert_val(T, w, 0), "empty values are refused");
	}
	same();
	vp_reach("end");
	harbol_tree_free(&T);
	vp_assert(T==NULL && vp_live==0, "the whole tree is released exactly once");
}
//@job C07 func=H_tree_set unwind=5 us=memcmp.0:9,harbol_tree_clear:2,harbol_tree_free:2 defs=NKIDS=1,NEW=1
//@job C07 func=H_tree_set unwind=5 us=memcmp.0:9,harbol_tree_clear:2,harbol_tree_free:2 defs=NKIDS=1,NEW=4
#ifndef NEW
#define NEW 4
#endif
void H_tree_set(void){
	build();
	uint8_t w[NEW]; for( int b=0;b<NEW;b++ ) w[b]=vp_u8();
	vp_assert(!harbol_tree_set(T, w, 0) && harbol_tree_len(T)==2, "empty value refused");
	vp_alloc_may_fail = 1;
	bool r = harbol_tree_set(T, w, NEW);
	vp_alloc_may_fail = 0;
	if( r ) {
		vp_assert(harbol_tree_len(T)==NEW, "length of the new value");
		uint8_t *d = harbol_tree_get(T);
		for( int b=0;b<NEW;b++ ) vp_assert(d[b]==w[b], "the new value");
		vp_reach("set");
	} else vp_assert(vp_failed && harbol_tree_len(T)==2 && harbol_tree_get(T) != NULL, "failed set changes nothing");
	same();
	harbol_tree_free(&T);
	vp_assert(T==NULL && vp_live==0, "the whole tree is released exactly once");
}
//@job C07 func=H_tree_deep unwind=5 us=memcmp.0:9,harbol_tree_clear:4,harbol_tree_free:4  defs=CHAIN=0
//@job C07 func=H_tree_deep unwind=5 us=memcmp.0:9,harbol_tree_clear:4,harbol_tree_free:4  defs=CHAIN=1
#ifndef CHAIN
#define CHAIN 0
#endif
void H_tree_deep(void){
	uint8_t v = vp_u8();
	struct HarbolTree *a = harbol_tree_new(&v, 1), *b = harbol_tree_new(&v, 1), *c = harbol_tree_new(&v, 1);
	vp_assert(a && b && c && vp_live==9, "three nodes");
	bool chain = CHAIN;
	vp_assert(harbol_tree_insert_node(a, &b), "insert_node");
	if( chain ) { vp_assert(harbol_tree_insert_node(b, &c), "insert_node"); }
	else vp_assert(harbol_tree_insert_node(a, &c), "insert_node");
	vp_assert(harbol_tree_get_node_by_index(a, 0)==b && harbol_tree_get_node_by_index(chain? b : a, chain? 0 : 1)==c, "shape");
	if( vp_bool() ) { vp_assert(harbol_tree_rm_index(a, 0), "rm"); vp_assert(vp_live==(chain? 3 : 6), "a removed child takes exactly its own subtree along"); }
	vp_reach("end");
	harbol_tree_free(&a);
	vp_assert(a==NULL && vp_live==0, "the whole tree is released exactly once");
}
/* any history on the whole tree: nodes are added under, removed from, and changed at any node */
#ifndef STEPS
#define STEPS 4
#endif
#define MN (STEPS+1)
static struct { struct HarbolTree *t; uint8_t d[MAXDS]; size_t n, kids; int kid[MN]; bool live; } M[MN];
static int mn;
static void check(int x, size_t *count){
	++*count;
	vp_assert(harbol_tree_len(M[x].t)==M[x].n, "length of the value");
	uint8_t const *d = harbol_tree_get(M[x].t);
	for( size_t b=0;b<M[x].n;b++ ) vp_assert(d[b]==M[x].d[b], "value");
	vp_assert(M[x].t->kids.len==M[x].kids && harbol_tree_get_node_by_index(M[x].t, M[x].kids)==NULL, "number of children");
	for( size_t k=0;k<M[x].kids;k++ ) {
		vp_assert(harbol_tree_get_node_by_index(M[x].t, k)==M[M[x].kid[k]].t, "child at its place");
		check(M[x].kid[k], count);
	}
}
static void dead(int x){ M[x].live = false; for( size_t k=0;k<M[x].kids;k++ ) dead(M[x].kid[k]); }
static void value(int x){ M[x].n = vp_pick(1, MAXDS); for( int b=0;b<MAXDS;b++ ) M[x].d[b] = vp_u8(); }
//@job C07 func=H_tree_hist engine=sx defs=STEPS=4
//@job C07 func=H_tree_hist engine=sx defs=STEPS=5 tier=thorough timeout=800 steps=200000000
void H_tree_hist(void){
	value(0);
	M[0].t = harbol_tree_new(M[0].d, M[0].n); M[0].live = true; mn = 1;
	vp_assert(M[0].t != NULL, "new");
	for( int s=0;s<STEPS;s++ ) {
		int x = (int)vp_pick(0, (uint64_t)mn-1);
		vp_assume(M[x].live);
		size_t const op = s==0? 0 : vp_pick(0, M[x].kids? 3 : 2);
		if( op==0 ) {
			int const y = mn++; value(y);
			vp_assert(harbol_tree_insert_val(M[x].t, M[y].d, M[y].n), "insert_val");
			M[y].t = harbol_tree_get_node_by_index(M[x].t, M[x].kids); M[y].live = true;
			M[x].kid[M[x].kids++] = y;
		} else if( op==1 ) {
			value(x);
			vp_assert(harbol_tree_set(M[x].t, M[x].d, M[x].n), "set");
		} else if( op==2 ) {
			uint8_t v[MAXDS]; size_t const n = vp_pick(1, MAXDS), at = M[x].kids;
			for( int b=0;b<MAXDS;b++ ) v[b] = vp_u8();
			size_t k = 0;
			for( ; k<at; k++ ) { int const c = M[x].kid[k]; if( M[c].n==n && M[c].d[0]==v[0] && (n<2 || M[c].d[1]==v[1]) ) break; }
			vp_assert(harbol_tree_get_node_by_val(M[x].t, v, n)==(k==at? NULL : M[M[x].kid[k]].t), "search by value finds the first such child");
			vp_assert(harbol_tree_rm_val(M[x].t, v, n)==(k<at), "rm_val removes exactly when a child holds the value");
			if( k<at ) { dead(M[x].kid[k]); for( ; k+1<at; k++ ) M[x].kid[k] = M[x].kid[k+1]; M[x].kids--; }
		} else {
			size_t k = vp_pick(0, M[x].kids-1); int const c = M[x].kid[k]; struct HarbolTree *p = M[c].t;
			if( vp_bool() ) vp_assert(harbol_tree_rm_index(M[x].t, k), "rm_index");
			else vp_assert(harbol_tree_rm_node(M[x].t, &p), "rm_node");
			dead(c);
			for( ; k+1<M[x].kids; k++ ) M[x].kid[k] = M[x].kid[k+1];
			M[x].kids--;
		}
		size_t count = 0, living = 0;
		check(0, &count);
		for( int i=0;i<mn;i++ ) living += M[i].live;
		vp_assert(count==living && vp_live==3*living, "a removed node goes with its whole subtree, and nothing else does");
	}
	vp_reach("history");
	harbol_tree_free(&M[0].t);
	vp_assert(M[0].t==NULL && vp_live==0, "the whole tree is released exactly once");
}
/* more children than the first table holds */
//@job C07 func=H_tree_wide engine=sx defs=STEPS=10
void H_tree_wide(void){
	uint8_t const v = vp_u8();
	struct HarbolTree *t = harbol_tree_new(&v, 1); size_t const n = vp_pick(3, STEPS);
	uint8_t d[STEPS]; struct HarbolTree *k[STEPS];
	for( size_t i=0;i<n;i++ ) {
		d[i] = vp_u8();
		if( vp_bool() ) { vp_assert(harbol_tree_insert_val(t, &d[i], 1), "insert_val"); k[i] = harbol_tree_get_node_by_index(t, i); }
		else { k[i] = harbol_tree_new(&d[i], 1); vp_assert(harbol_tree_insert_node(t, &k[i]), "insert_node"); }
	}
	for( size_t i=0;i<n;i++ ) vp_assert(harbol_tree_get_node_by_index(t, i)==k[i] && *(uint8_t*)harbol_tree_get(k[i])==d[i], "children in the order added");
	struct HarbolTree *e = harbol_tree_new(&v, 1);
	harbol_tree_clear(e);
	vp_assert(harbol_tree_get(e)==NULL && harbol_tree_len(e)==0 && !harbol_tree_insert_node(t, &e) && t->kids.len==n, "a node without a value is refused");
	vp_assert(harbol_tree_set(e, &d[0], 1) && *(uint8_t*)harbol_tree_get(e)==d[0] && harbol_tree_insert_val(e, &d[1], 1), "a cleared node can be used again");
	harbol_tree_free(&e);
	size_t const x = vp_pick(0, n-1);
	vp_assert(harbol_tree_rm_index(t, x), "rm");
	for( size_t i=0;i+1<n;i++ ) vp_assert(harbol_tree_get_node_by_index(t, i)==k[i+(i>=x)], "the others keep their order");
	vp_reach("wide");
	harbol_tree_free(&t);
	vp_assert(vp_live==0, "the whole tree is released exactly once");
}
/* larger values, among them one that only differs at its end */
//@job C07 engine=sx func=H_tree_values
void H_tree_values(void){
	static size_t const sz[] = {1, 8, 9, 16, 33, 64, 100};
	uint8_t root = 0, b[3][101]; size_t n[3];
	struct HarbolTree *t = harbol_tree_new(&root, 1);
	for( int i=0;i<3;i++ ) {
		n[i] = sz[vp_pick(0, 6)];
		for( size_t j=0;j<n[i];j++ ) b[i][j] = (uint8_t)(j*7);
		b[i][n[i]-1] = (uint8_t)(200+i);
		vp_assert(harbol_tree_insert_val(t, b[i], n[i]), "insert_val");
	}
	uint8_t c[101]; size_t const w = vp_pick(0, 2);
	memcpy(c, b[w], n[w]); c[n[w]] = 0;
	vp_assert(harbol_tree_get_node_by_val(t, c, n[w])==harbol_tree_get_node_by_index(t, w), "the child with this value");
	c[n[w]-1] = vp_u8(); vp_assume(c[n[w]-1]<200);
	vp_assert(harbol_tree_get_node_by_val(t, c, n[w])==NULL && harbol_tree_get_node_by_val(t, b[w], n[w]>1? n[w]-1 : 2)==NULL, "no child with this value");
	vp_assert(!harbol_tree_rm_val(t, c, n[w]), "nothing to remove");
	struct HarbolTree *const k = harbol_tree_get_node_by_index(t, w); size_t const m = sz[vp_pick(0, 6)];
	for( size_t j=0;j<m;j++ ) c[j] = vp_u8(); vp_assume(c[m-1]<200);
	vp_assert(harbol_tree_set(k, c, m), "set");
	uint8_t const *const d = harbol_tree_get(k); vp_assert(harbol_tree_len(t)==1 && harbol_tree_len(k)==m, "sizes");
	for( size_t j=0;j<m;j++ ) vp_assert(d[j]==c[j], "the value is replaced completely");
	size_t const x = (w+1)%3;
	vp_assert(harbol_tree_rm_val(t, b[x], n[x]), "removed by value");
	vp_assert(harbol_tree_get_node_by_val(t, b[x], n[x])==NULL && t->kids.len==2 && harbol_tree_get_node_by_index(t, w - (w>x))==k, "the others stay");
	vp_reach("end");
	harbol_tree_free(&t);
	vp_assert(vp_live==0, "the whole tree is released exactly once");
}
