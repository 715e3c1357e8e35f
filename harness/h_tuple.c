// HarbolTuple and HarbolVariant.
//@src tuple/tuple.c array/array.c variant/variant.c
#include "vp.h"
#include "tuple/tuple.h"
#include "variant/variant.h"
#ifndef NF
#define NF 3
#endif
#ifndef PACKED
#define PACKED 0
#endif
#ifndef FAILS
#define FAILS 0
#endif

static size_t pow_size(void){ size_t s = vp_range(0,4); return (size_t)1 << s; }    /* 1,2,4,8,16 */
static size_t al(size_t s){ return s > 8? 8 : s; }

/* sizes of natural C members: the layout is the one the C ABI gives the same struct */
//@job C08 func=H_tuple_layout unwind=20 defs=NF=1
//@job C08 func=H_tuple_layout unwind=20 defs=NF=2
//@job C08 func=H_tuple_layout unwind=20 defs=NF=3
//@job C08 func=H_tuple_layout unwind=40 defs=NF=4 tier=thorough
//@job C08 func=H_tuple_layout unwind=20 defs=NF=3,PACKED=1
void H_tuple_layout(void){
	size_t sz[NF], off[NF], pos=0, big=1;
	for( int i=0;i<NF;i++ ) {
		sz[i] = pow_size();
		if( !PACKED ) pos = (pos + al(sz[i]) - 1) / al(sz[i]) * al(sz[i]);
		off[i] = pos; pos += sz[i];
		if( al(sz[i]) > big ) big = al(sz[i]);
	}
	if( !PACKED ) pos = (pos + big - 1) / big * big;
	bool ok=false;
	struct HarbolTuple t = harbol_tuple_create(NF, sz, PACKED, &ok);
	vp_assert(ok, "create");
	vp_assert(harbol_tuple_len(&t)==pos, "total size is the size of the C struct (sum when packed)");
	vp_assert(harbol_tuple_fields(&t)==NF, "number of fields");
	vp_assert(harbol_tuple_packed(&t)==PACKED, "packed flag");
	for( int i=0;i<NF;i++ ) {
		uint8_t *p = harbol_tuple_get(&t, i);
		vp_assert(p == t.datum + off[i], "field at its C struct offset");
		vp_assert(harbol_tuple_field_size(&t, i)==sz[i], "field size");
	}
	size_t j = vp_u64(); 
	if( j >= NF ) vp_assert(harbol_tuple_get(&t, j)==NULL && harbol_tuple_field_size(&t, j)==0 && harbol_tuple_set(&t, j, &j)==NULL, "no field past the end");
	harbol_tuple_clear(&t);
	vp_assert(vp_live==0 && harbol_tuple_get(&t, 0)==NULL && harbol_tuple_field_size(&t, 0)==0, "cleared");
	vp_reach("end");
}
/* any member sizes >= 1, including ones too large: fields lie inside, in order, disjoint -- or creation is refused */
//@job C08 func=H_tuple_any unwind=12 defs=NF=2
//@job C08 func=H_tuple_any unwind=12 defs=NF=3
//@job C08 func=H_tuple_any unwind=12 defs=NF=3,PACKED=1
#define VP_BIG 40000
void H_tuple_any(void){
	size_t sz[NF];
	for( int i=0;i<NF;i++ ) { sz[i] = vp_u64(); vp_assume(sz[i] >= 1); }
	bool ok=false;
	vp_alloc_may_fail = FAILS;
	struct HarbolTuple t = harbol_tuple_create(NF, sz, PACKED, &ok);
	vp_alloc_may_fail = 0;
	if( ok ) {
		size_t prev=0, len=harbol_tuple_len(&t);
		vp_assert(harbol_tuple_fields(&t)==NF, "number of fields");
		for( int i=0;i<NF;i++ ) {
			uint8_t *p = harbol_tuple_get(&t, i);
			vp_assert(p != NULL && harbol_tuple_field_size(&t, i)==sz[i], "field present with its own size");
			size_t o = (size_t)(p - t.datum);
			vp_assert(p >= t.datum && o >= prev && o <= len && sz[i] <= len - o, "fields in order, disjoint, inside the tuple");
			if( PACKED ) vp_assert(o==prev, "packed fields are adjacent");
			prev = o + sz[i];
		}
		if( prev > 60000 ) vp_reach("large tuple");
	} else {
		size_t sum=0; bool fits=true;
		for( int i=0;i<NF;i++ ) { if( sz[i] > 65000 - sum ) fits=false; else { sum = (sum + sz[i] + 7)/8*8; if( sum > 65000 ) sum=65000; } }
		vp_assert(!fits, "layouts that fit are accepted");
	}
}
//@job O01 func=H_tuple_oom unwind=12
void H_tuple_oom(void){
	size_t sz[2] = {4, 8};
	bool ok=true;
	vp_alloc_may_fail = 1;
	if( vp_bool() ) {
		struct HarbolTuple t = harbol_tuple_create(2, sz, false, &ok);
		vp_alloc_may_fail = 0;
		vp_assert(ok == (vp_failed==0), "success exactly when memory did not run out");
		if( ok ) { vp_assert(harbol_tuple_fields(&t)==2 && harbol_tuple_get(&t, 1) != NULL, "complete"); harbol_tuple_clear(&t); }
		else vp_reach("tuple without memory");
	} else {
		struct HarbolTuple *t = harbol_tuple_new(2, sz, false);
		vp_alloc_may_fail = 0;
		vp_assert((t != NULL) == (vp_failed==0), "success exactly when memory did not run out");
		if( t ) { vp_assert(harbol_tuple_fields(t)==2, "complete"); harbol_tuple_free(&t); vp_assert(t==NULL, "nulled"); }
		else vp_reach("no tuple without memory");
	}
	vp_assert(vp_live==0, "nothing is leaked");
}
/* set/get round trip: writing one field changes that field only */
//@job C08 func=H_tuple_set unwind=30
//@job C08 func=H_tuple_set unwind=30 defs=PACKED=1
void H_tuple_set(void){
	size_t const sz[3] = {1, 4, 2};
	bool ok=false;
	struct HarbolTuple t = harbol_tuple_create(3, sz, PACKED, &ok);
	uint8_t before[12], after[12];
	size_t len = harbol_tuple_len(&t);
	vp_assert(len <= 12, "size");
	for( size_t i=0;i<12;i++ ) if( i<len ) t.datum[i] = before[i] = vp_u8();
	uint8_t v[4] = {vp_u8(),vp_u8(),vp_u8(),vp_u8()};
	size_t k = vp_range(0, 2);
	uint8_t *p = harbol_tuple_set(&t, k, v);
	vp_assert(p != NULL && p==harbol_tuple_get(&t, k), "set yields the field");
	size_t o = (size_t)(p - t.datum);
	vp_assert(harbol_tuple_to_struct(&t, after), "to_struct");
	size_t j = vp_range(0, 11);
	if( j < len ) vp_assert(after[j]==(j>=o && j<o+sz[k] ? v[j-o] : before[j]), "exactly the field's bytes change");
	size_t const past = vp_range(3, SIZE_MAX);
	vp_assert(harbol_tuple_get(&t, past)==NULL && harbol_tuple_set(&t, past, v)==NULL && harbol_tuple_field_size(&t, past)==0, "reading past the last field is refused");
	harbol_tuple_clear(&t);
	vp_assert(harbol_tuple_len(&t)==0 && harbol_tuple_fields(&t)==0 && harbol_tuple_get(&t, k)==NULL && harbol_tuple_set(&t, k, v)==NULL
		&& harbol_tuple_field_size(&t, k)==0 && !harbol_tuple_to_struct(&t, after), "a cleared tuple has nothing");
	vp_assert(vp_live==0, "everything is released");
	vp_reach("end");
}
/* the smallest tuples */
//@job C08 func=H_tuple_one unwind=30
void H_tuple_one(void){
	size_t const sz[1] = {vp_pick(1, 2)};
	bool ok=false;
	struct HarbolTuple t = harbol_tuple_create(1, sz, vp_bool(), &ok);
	vp_assert(ok && harbol_tuple_len(&t)==sz[0] && harbol_tuple_fields(&t)==1 && harbol_tuple_field_size(&t, 0)==sz[0], "one field");
	uint8_t v[2] = {vp_u8(),vp_u8()}, after[2];
	vp_assert(harbol_tuple_set(&t, 0, v)==t.datum && harbol_tuple_get(&t, 0)==t.datum, "set");
	vp_assert(harbol_tuple_to_struct(&t, after), "to_struct");
	for( size_t i=0;i<2;i++ ) if( i<sz[0] ) vp_assert(after[i]==v[i], "the value");
	vp_assert(harbol_tuple_get(&t, 1)==NULL, "no second field");
	harbol_tuple_clear(&t);
	vp_assert(vp_live==0, "everything is released");
	vp_reach("one");
}

//@job C09 func=H_variant_hist unwind=10
/* any sizes, also from empty and on a cleared one */
void H_variant_hist(void){
	uint8_t b[4]; uint64_t tv = vp_u64(); int32_t tag; memcpy(&tag, &tv, sizeof tag);
	for( int i=0;i<4;i++ ) b[i]=vp_u8();
	struct HarbolVariant v = {0}; int32_t want = 0;
	size_t have = 0, len = 0; uint8_t old[4] = {0};
	vp_assert(harbol_variant_data(&v)==NULL && harbol_variant_size(&v)==0, "empty");
	for( int k=0;k<3;k++ ) {
		if( have==0 && vp_bool() ) {
			len = vp_range(1, 4);
			vp_assert(harbol_variant_init(&v, b, len, tag), "init");
			want = tag;
		} else if( vp_bool() ) {
			harbol_variant_clear(&v);
			have = 0; want = 0;
			vp_assert(harbol_variant_data(&v)==NULL && harbol_variant_size(&v)==0 && harbol_variant_tag(&v)==0, "cleared");
			vp_reach("cleared");
			continue;
		} else {
			len = vp_range(1, 4);
			vp_assert(harbol_variant_set(&v, b, len), "set");
		}
		have = len;
		for( int i=0;i<4;i++ ) { old[i] = b[i]; b[i] = vp_u8(); }
		uint8_t const *d = harbol_variant_data(&v);
		vp_assert(d != NULL && harbol_variant_size(&v)==have && harbol_variant_tag(&v)==want, "size and tag");
		for( size_t i=0;i<4;i++ ) if( i<have ) vp_assert(d[i]==old[i], "exactly the bytes stored last");
	}
	vp_reach("history");
	harbol_variant_clear(&v);
	vp_assert(vp_live==0, "nothing is leaked");
}
//@job C09 func=H_variant unwind=10
void H_variant(void){
	uint8_t a[4], b[4];
	for( int i=0;i<4;i++ ) { a[i]=vp_u8(); b[i]=vp_u8(); }
	uint8_t const a0 = a[0], b0 = b[0];
	uint64_t tv = vp_u64(); int32_t tag; memcpy(&tag, &tv, sizeof tag);
	vp_alloc_may_fail = vp_bool();
	struct HarbolVariant *v = harbol_variant_new(a, 3, tag);
	vp_assert((v != NULL) == (vp_failed==0), "new");
	if( v ) {
		uint8_t *d = harbol_variant_data(v);
		vp_assert(harbol_variant_size(v)==3 && harbol_variant_tag(v)==tag, "size and tag");
		for( int i=0;i<3;i++ ) vp_assert(d[i]==a[i], "value copied");
		a[0] ^= 0xff;
		vp_assert(d[0]==a0, "holds its own copy");
		size_t f0 = vp_failed;
		bool r = harbol_variant_set(v, b, 4);
		vp_assert(r == (vp_failed==f0), "set succeeds unless memory ran out");
		d = harbol_variant_data(v);
		b[0] ^= 0xff;
		vp_assert(harbol_variant_tag(v)==tag, "set keeps the tag");
		if( r ) { vp_assert(harbol_variant_size(v)==4 && d[0]==b0 && d[1]==b[1] && d[2]==b[2] && d[3]==b[3], "the new value"); vp_reach("set"); }
		else { vp_assert(harbol_variant_size(v)==3 && d[0]==a0 && d[1]==a[1] && d[2]==a[2], "a failed set keeps the old value"); vp_reach("failed set"); }
		harbol_variant_free(&v);
		vp_assert(v==NULL, "nulled");
	}
	vp_assert(vp_live==0, "nothing is leaked");
	vp_alloc_may_fail = vp_bool();
	bool ok; size_t f0 = vp_failed;
	struct HarbolVariant w = harbol_variant_make(b, 2, tag, &ok);
	vp_assert(ok==(vp_failed==f0), "make");
	if( ok ) vp_assert(harbol_variant_size(&w)==2 && harbol_variant_tag(&w)==tag && ((uint8_t*)harbol_variant_data(&w))[1]==b[1], "made");
	harbol_variant_clear(&w);
	vp_assert(harbol_variant_data(&w)==NULL && harbol_variant_size(&w)==0 && harbol_variant_tag(&w)==0 && vp_live==0, "cleared");
}
/* more fields, every mixture of natural sizes, all of them set one after the other */
//@job C08 engine=sx func=H_tuple_many
void H_tuple_many(void){
	size_t const n = vp_pick(4, 9), p = vp_pick(0, 4), q = vp_pick(0, 3); bool const packed = vp_pick(0, 1);
	size_t sz[9], off[9], pos = 0, big = 1, mix = vp_pick(0, 15);
	for( size_t i=0;i<n;i++ ) {
		sz[i] = (size_t)1 << (i==q? p : (mix ^ i*5)%4 ^ ((mix>>2) & i & 1));
		if( !packed ) pos = (pos + al(sz[i]) - 1) / al(sz[i]) * al(sz[i]);
		off[i] = pos; pos += sz[i];
		if( al(sz[i]) > big ) big = al(sz[i]);
	}
	if( !packed ) pos = (pos + big - 1) / big * big;
	struct HarbolTuple *t = harbol_tuple_new(n, sz, packed);
	vp_assert(t && harbol_tuple_len(t)==pos && harbol_tuple_fields(t)==n, "total size and number of fields");
	uint8_t v[9][16], all[160];
	for( size_t k=0;k<n;k++ ) {
		size_t const i = (k*2 + 1 + (n%2==0 && k>=n/2)) % n;
		for( size_t j=0;j<sz[i];j++ ) v[i][j] = vp_u8();
		vp_assert(harbol_tuple_set(t, i, v[i])==t->datum+off[i] && harbol_tuple_field_size(t, i)==sz[i], "field at its C struct offset");
	}
	vp_assert(harbol_tuple_to_struct(t, all), "to_struct");
	for( size_t i=0;i<n;i++ ) for( size_t j=0;j<sz[i];j++ ) vp_assert(all[off[i]+j]==v[i][j], "every field keeps its value");
	if( pos > 60 ) vp_reach("large");
	harbol_tuple_free(&t);
	vp_assert(t==NULL && vp_live==0, "released");
}
/* larger values in a variant */
//@job C09 engine=sx func=H_variant_large
void H_variant_large(void){
	static size_t const sz[] = {1, 7, 8, 9, 16, 17, 32, 33, 64, 100};
	uint8_t b[100]; size_t n = sz[vp_pick(0, 9)]; uint32_t const type = (uint32_t)vp_u64();
	for( size_t i=0;i<n;i++ ) b[i] = vp_u8();
	struct HarbolVariant *v = harbol_variant_new(b, n, (int32_t)type);
	vp_assert(v != NULL, "made");
	for( int s=0;s<3;s++ ) {
		uint8_t const *const d = harbol_variant_data(v);
		vp_assert(harbol_variant_size(v)==n && harbol_variant_tag(v)==(int32_t)type, "size and type");
		for( size_t i=0;i<n;i++ ) vp_assert(d[i]==b[i], "the bytes stored");
		vp_assert((void const*)d != (void const*)b, "a copy");
		n = sz[vp_pick(0, 9)];
		for( size_t i=0;i<n;i++ ) b[i] = vp_u8();
		vp_assert(harbol_variant_set(v, b, n), "set");
	}
	vp_reach("end");
	harbol_variant_free(&v);
	vp_assert(v==NULL && vp_live==0, "released");
}
