// HarbolByteBuf: one arbitrary operation on a buffer of LEN arbitrary bytes with capacity CAP.
//@src bytebuffer/bytebuffer.c
//@rt vp_stdio.c
#include "vp.h"
#include "bytebuffer/bytebuffer.h"
#ifndef CAP
#define CAP 6
#endif
#ifndef LEN
#define LEN 4
#endif
#ifndef FAILS
#define FAILS 0
#endif
#define MAXN 24
static struct HarbolByteBuf B; static uint8_t ref[MAXN+32]; static size_t rlen;
static void setup(void){
	B = harbol_bytebuffer_make();
	if( CAP > 0 ) {
		B.table = vp_calloc(CAP, 1); B.cap = CAP; B.len = LEN;
		for( size_t i=0;i<LEN;i++ ) B.table[i] = ref[i] = vp_u8();
	}
	rlen = LEN;
}
static void put(void const *p, size_t n){ uint8_t const *q=p; for( size_t i=0;i<n;i++ ) ref[rlen+i]=q[i]; rlen += n; }
static void same(void){
	vp_assert(harbol_bytebuffer_len(&B)==rlen, "length is the number of bytes put in");
	vp_assert(harbol_bytebuffer_cap(&B) >= rlen, "capacity covers the length");
	size_t j = vp_u64();
	if( j < rlen ) vp_assert(harbol_bytebuffer_get_buffer(&B)[j]==ref[j], "byte differs from the bytes put in");
}
#define INS(kind, T, val) do{ T v=(T)(val); size_t f0=vp_failed; bool r = harbol_bytebuffer_insert_##kind(&B, v); \
	vp_assert(r==(vp_failed==f0), "insertion succeeds unless memory ran out"); if( r ) put(&v, sizeof v); }while(0)
//@job C03 func=H_bb_scalar unwind=20 defs=CAP=6,LEN=4
//@job C03 func=H_bb_scalar unwind=20 defs=CAP=4,LEN=4
//@job C03 func=H_bb_scalar unwind=20 defs=CAP=0,LEN=0
//@job C03 func=H_bb_scalar unwind=24 defs=CAP=16,LEN=4
//@job O01 func=H_bb_scalar unwind=20 defs=CAP=6,LEN=4,FAILS=1
void H_bb_scalar(void){
	setup();
	vp_alloc_may_fail = FAILS;
	uint64_t x = vp_u64();
	switch( vp_u8() ) {
	case 0: INS(byte, uint8_t, x); break;
	case 1: INS(int16, uint16_t, x); break;
	case 2: INS(int32, uint32_t, x); break;
	case 3: INS(int64, uint64_t, x); break;
	case 4: INS(ptr, uintptr_t, x); break;
	case 5: { float f; memcpy(&f, &x, 4); vp_assume(f==f); INS(float32, float, f); break; }
	default:{ double f; memcpy(&f, &x, 8); vp_assume(f==f); INS(float64, double, f); }
	}
	vp_alloc_may_fail = 0;
	if( rlen==LEN+8 ) vp_reach("eight bytes");
	same();
	harbol_bytebuffer_clear(&B);
	vp_assert(vp_live==0 && B.len==0 && B.cap==0, "cleared");
}
//@job C03 func=H_bb_seq unwind=20 defs=CAP=0,LEN=0
//@job C03 func=H_bb_seq unwind=20 defs=CAP=5,LEN=3
void H_bb_seq(void){
	setup();
	INS(int16, uint16_t, vp_u64()); INS(byte, uint8_t, vp_u64()); INS(int32, uint32_t, vp_u64());
	long double ld = 1.5L; size_t l0 = rlen;
	vp_assert(harbol_bytebuffer_insert_floatmax(&B, ld), "floatmax");
	long double back; memcpy(&back, B.table+l0, sizeof back);
	vp_assert(back==ld && B.len==l0+sizeof ld, "floatmax bytes");
	rlen = l0; B.len = l0;
	INS(byte, uint8_t, vp_u64());
	same();
	vp_reach("end");
}
#ifndef OP
#define OP 0
#endif
//@job C03 func=H_bb_block unwind=20 defs=VP_OWNREALLOC=16,OP=0,CAP=6,LEN=4
//@job C03 func=H_bb_block unwind=20 defs=VP_OWNREALLOC=16,OP=0,CAP=0,LEN=0
//@job C03 func=H_bb_block unwind=20 defs=VP_OWNREALLOC=16,OP=1,CAP=8,LEN=3
//@job C03 func=H_bb_block unwind=20 defs=VP_OWNREALLOC=16,OP=1,CAP=6,LEN=4
//@job C03 func=H_bb_block unwind=20 defs=VP_OWNREALLOC=16,OP=2,CAP=6,LEN=4
//@job C03 func=H_bb_block unwind=20 defs=VP_OWNREALLOC=16,OP=2,CAP=8,LEN=4
//@job C03 func=H_bb_block unwind=20 defs=VP_OWNREALLOC=16,OP=2,CAP=0,LEN=0
//@job O01 func=H_bb_block unwind=20 defs=VP_OWNREALLOC=16,OP=0,CAP=6,LEN=4,FAILS=1
//@job O01 func=H_bb_block unwind=20 defs=VP_OWNREALLOC=16,OP=1,CAP=6,LEN=4,FAILS=1
//@job O01 func=H_bb_block unwind=20 defs=VP_OWNREALLOC=16,OP=2,CAP=6,LEN=4,FAILS=1
static void block(size_t k, uint8_t obj[static 4]){
	vp_alloc_may_fail = FAILS;
	bool r; size_t f0 = vp_failed;
	if( OP==0 ) { r = harbol_bytebuffer_insert_obj(&B, obj, k); if( r ) put(obj, k); }
	else if( OP==1 ) { uint8_t z[4]={0}; r = harbol_bytebuffer_insert_zeros(&B, k); if( r ) put(z, k); }
	else {
		char s[5]; for( size_t i=0;i<4;i++ ) { vp_assume(i>=k || obj[i]); s[i] = (char)obj[i]; } s[k]=0;
		r = harbol_bytebuffer_insert_cstr(&B, s); if( r ) put(s, k+1);

	}
	vp_assert(r==(vp_failed==f0), "insertion succeeds unless memory ran out");
	vp_alloc_may_fail = 0;
	same();
	harbol_bytebuffer_clear(&B);
	vp_assert(vp_live==0, "released");
	if( k==4 ) vp_reach("end");
}
void H_bb_block(void){
	setup();
	uint8_t obj[4] = {vp_u8(),vp_u8(),vp_u8(),vp_u8()};
	size_t const n = vp_range(0, 4);
	for( size_t k=0; k<=4; k++ ) if( n==k ) { block(k, obj); return; }
}
//@job C03 func=H_bb_huge unwind=20 defs=CAP=6,LEN=4
//@job C03 func=H_bb_huge unwind=20 defs=CAP=0,LEN=0
void H_bb_huge(void){
	setup();
	uint8_t obj[1] = {1};
	size_t const k = vp_u8(); bool const z = vp_bool(), hi = vp_bool();
	/* wrap-around sizes, and sizes just above what memory can provide */
	for( size_t i=0;i<12;i++ ) if( k==i ) {
		size_t const n = hi? SIZE_MAX-i : VP_MAXALLOC+1+i;
		bool const r = z? harbol_bytebuffer_insert_zeros(&B, n) : harbol_bytebuffer_insert_obj(&B, obj, n);
		vp_assert(!r, "blocks larger than memory are refused");
		vp_reach("huge block");
		same();
		return;
	}
}
//@job C03 func=H_bb_del unwind=20 defs=CAP=6,LEN=6
//@job C03 func=H_bb_del unwind=20 defs=CAP=6,LEN=0
void H_bb_del(void){
	setup();
	size_t i = vp_u64(), n = vp_u64();
	bool r = harbol_bytebuffer_del(&B, i, n);
	vp_assert(r==(i<rlen), "deletion succeeds exactly for an index in range");
	if( r ) {
		size_t m = n? n : 1; if( m > rlen-i ) m = rlen-i;
		for( size_t k=0;k<LEN;k++ ) if( k>=i && k+m<rlen ) ref[k]=ref[k+m];
		rlen -= m;
	}
	same();
	if( B.len==0 ) { harbol_bytebuffer_insert_byte(&B, 7); vp_assert(B.len==1 && B.table[0]==7, "usable after emptying"); vp_reach("emptied"); }
}
#ifndef LENB
#define LENB 3
#endif
//@job C03 func=H_bb_join unwind=20 defs=VP_OWNREALLOC=16,CAP=6,LEN=4,LENB=3
//@job C03 func=H_bb_join unwind=20 defs=VP_OWNREALLOC=16,CAP=6,LEN=2,LENB=3
//@job C03 func=H_bb_join unwind=20 defs=VP_OWNREALLOC=16,CAP=4,LEN=3,LENB=0
//@job C03 func=H_bb_join unwind=20 defs=VP_OWNREALLOC=16,CAP=4,LEN=3,LENB=3
//@job O01 func=H_bb_join unwind=20 defs=VP_OWNREALLOC=16,CAP=6,LEN=4,LENB=3,FAILS=1
void H_bb_join(void){
	setup();
	struct HarbolByteBuf C = harbol_bytebuffer_make();
	uint8_t cr[4];
	C.table = vp_calloc(4, 1); C.cap = 4; C.len = LENB;
	for( size_t i=0;i<LENB;i++ ) C.table[i] = cr[i] = vp_u8();
	vp_alloc_may_fail = FAILS;
	if( vp_bool() ) {
		bool r = harbol_bytebuffer_append(&B, &C);
		vp_assert(r==(vp_failed==0), "append succeeds unless memory ran out");
		if( r ) put(cr, LENB);
	} else {
		bool r = harbol_bytebuffer_copy(&B, &C);
		vp_assert(r==(vp_failed==0), "copy succeeds unless memory ran out");
		if( r ) { rlen=0; put(cr, LENB); }
	}
	vp_alloc_may_fail = 0;
	same();
	vp_assert(C.len==LENB, "source kept");
	uint8_t x = vp_u8();
	vp_assert(harbol_bytebuffer_insert_byte(&B, x), "usable afterwards"); put(&x, 1);
	same();
	harbol_bytebuffer_clear(&C); harbol_bytebuffer_clear(&B);
	vp_assert(vp_live==0, "released");
	vp_reach("end");
}
extern uint8_t vp_fdata[17], vp_fout[17]; extern size_t vp_flen, vp_fpos, vp_foutlen; extern bool vp_fmissing, vp_foutfull; extern int vp_fopened;
void *vp_infile(void); void *vp_outfile(void);
#ifndef FLEN
#define FLEN 3
#endif
//@job C03 func=H_bb_file unwind=20 defs=VP_STDIO,CAP=6,LEN=4,FLEN=0
//@job C03 func=H_bb_file unwind=20 defs=VP_STDIO,CAP=6,LEN=4,FLEN=3
//@job C03 func=H_bb_file unwind=20 defs=VP_STDIO,CAP=8,LEN=1,FLEN=4
void H_bb_file(void){
	setup();
	vp_flen = FLEN; vp_fmissing = vp_bool();
	for( size_t i=0;i<FLEN;i++ ) vp_fdata[i]=vp_u8();
	bool r = harbol_bytebuffer_insert_from_filename(&B, "f");
	vp_assert(r==(!vp_fmissing && FLEN>0), "insert_from_filename succeeds exactly when there are bytes to read");
	vp_assert(vp_fopened==0, "file closed");
	if( r ) { put(vp_fdata, FLEN); }
	same();
	vp_foutfull = vp_bool();
	r = harbol_bytebuffer_to_file(&B, vp_outfile());
	vp_assert(r==(!vp_foutfull), "to_file reports whether everything was written");
	if( r ) { vp_assert(vp_foutlen==rlen, "every byte written"); size_t j=vp_u64(); if( j<rlen ) vp_assert(vp_fout[j]==ref[j], "bytes written"); vp_reach("written"); }
}
/* a history of insertions of every kind and of larger blocks, with deletions and copies in between */
#define LR 1000
static uint8_t lr[LR]; static size_t ll;
static void lput(void const *p, size_t n){ memcpy(lr+ll, p, n); ll += n; }
static void lsame(struct HarbolByteBuf *b){
	vp_assert(harbol_bytebuffer_len(b)==ll && harbol_bytebuffer_cap(b)>=ll, "length is the number of bytes put in");
	uint8_t const *const d = harbol_bytebuffer_get_buffer(b);
	for( size_t i=0;i<ll;i++ ) vp_assert(d[i]==lr[i], "byte differs from the bytes put in");
}
#ifndef STEPS
#define STEPS 3
#endif
//@job C03 engine=sx func=H_bb_hist defs=STEPS=3
//@job C03 engine=sx func=H_bb_hist defs=STEPS=4 tier=thorough
void H_bb_hist(void){
	static size_t const sz[] = {1, 9, 33, 100};
	struct HarbolByteBuf *const b = harbol_bytebuffer_new(); vp_assume(b != NULL);
	struct HarbolByteBuf c = harbol_bytebuffer_make();
	ll = 0;
	for( int s=0;s<STEPS;s++ ) {
		uint8_t blk[101]; uint64_t const x = vp_u64();
		switch( vp_pick(0, 8) ) {
		case 0: { uint8_t const v = (uint8_t)x; vp_assert(harbol_bytebuffer_insert_byte(b, v), "put in"); lput(&v, 1); break; }
		case 1: { uint16_t const v = (uint16_t)x; vp_assert(harbol_bytebuffer_insert_int16(b, v), "put in"); lput(&v, 2); break; }
		case 2: { uint32_t const v = (uint32_t)x; vp_assert(harbol_bytebuffer_insert_int32(b, v), "put in"); lput(&v, 4); break; }
		case 3: { vp_assert(harbol_bytebuffer_insert_int64(b, x) && harbol_bytebuffer_insert_ptr(b, (uintptr_t)~x), "put in"); uint64_t const y = ~x; lput(&x, 8); lput(&y, 8); break; }
		case 4: {
			size_t const n = sz[vp_pick(0, 3)];
			for( size_t i=0;i<n;i++ ) blk[i] = vp_u8();
			vp_assert(harbol_bytebuffer_insert_obj(b, blk, n), "put in"); lput(blk, n);
			break;
		}
		case 5: {
			size_t const n = sz[vp_pick(0, 3)];
			memset(blk, 0, n);
			vp_assert(harbol_bytebuffer_insert_zeros(b, n), "put in"); lput(blk, n);
			break;
		}
		case 6: {
			size_t const n = sz[vp_pick(0, 3)];
			for( size_t i=0;i<n;i++ ) blk[i] = (uint8_t)('0'+i%40);
			blk[n] = 0;
			vp_assert(harbol_bytebuffer_insert_cstr(b, (char*)blk), "put in"); lput(blk, n+1);
			break;
		}
		case 7: {
			size_t const at[] = {0, 1, ll/2, ll-1, ll}, i = at[vp_pick(0, 4)], n = vp_pick(0, 2)*8;
			vp_assert(harbol_bytebuffer_del(b, i, n)==(i<ll), "deletion succeeds exactly for an index in range");
			if( i<ll ) { size_t m = n? n : 1; if( m > ll-i ) m = ll-i; memmove(lr+i, lr+i+m, ll-i-m); ll -= m; vp_reach("deleted"); }
			break;
		}
		default:
			if( ll ) { vp_assert(harbol_bytebuffer_copy(&c, b), "copied"); lsame(&c); vp_reach("copied"); }
			if( ll && vp_pick(0, 1) ) { vp_assert(harbol_bytebuffer_append(b, &c), "joined"); lput(lr, ll); }
		}
		if( ll ) lsame(b); else vp_assert(b->len==0, "empty");
	}
	uint8_t const z = vp_u8();
	vp_assert(harbol_bytebuffer_insert_byte(b, z), "put in"); lput(&z, 1); lsame(b);
	struct HarbolByteBuf *p = b;
	harbol_bytebuffer_clear(&c); harbol_bytebuffer_free(&p);
	vp_assert(p==NULL && vp_live==0, "released");
	vp_reach("end");
}
