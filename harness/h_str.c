// HarbolString: one operation on a text of LEN arbitrary non-NUL bytes, against the text the operation names.
//@src str/str.c
//@rt vp_libc.c vp_stdio.c
#include "vp.h"
#include <ctype.h>
#include "str/str.h"
#ifndef LEN
#define LEN 3
#endif
#ifndef LENB
#define LENB 2
#endif
#ifndef FAILS
#define FAILS 0
#endif
#define MAX 24
static struct HarbolString S; static char ref[MAX+1]; static size_t rlen;
static char vp_chr(void){ char c = (char)vp_u8(); vp_assume(c!=0); return c; }
static void setup(void){
	S = (struct HarbolString){0}; rlen = LEN;
#if LEN > 0 || !defined(NULLS)
	S.cstr = vp_calloc(LEN+1, 1); S.len = LEN;
	for( size_t i=0;i<LEN;i++ ) S.cstr[i] = ref[i] = vp_chr();
#endif
}
static void put(char const *p, size_t n){ for( size_t i=0;i<n;i++ ) ref[rlen+i]=p[i]; rlen += n; }
static void same(void){
	vp_assert(harbol_string_len(&S)==rlen, "length of the text");
	char const *p = harbol_string_cstr(&S);
	if( p==NULL ) { vp_assert(rlen==0, "text lost"); return; }
	vp_assert(p[rlen]==0, "terminator");
	size_t const j = vp_u64();
	if( j<rlen ) vp_assert(p[j]==ref[j], "character differs");
	vp_assert(harbol_string_empty(&S)==(rlen==0), "empty");
}
static void done(void){
	vp_alloc_may_fail = 0;
	same();
	harbol_string_clear(&S);
	vp_assert(vp_live==0 && S.len==0 && S.cstr==NULL, "released");
	vp_reach("end");
}
#define TRY(e) size_t const f0 = vp_failed; vp_alloc_may_fail = FAILS; bool const r = (e); vp_alloc_may_fail = 0; bool const mem = vp_failed==f0
static void other(char b[static MAX+1]){ for( size_t i=0;i<LENB;i++ ) b[i] = vp_chr(); b[LENB]=0; }

//@job S01 func=H_str_addc unwind=20 defs=VP_OWNREALLOC=16,LEN=3
//@job S01 func=H_str_addc unwind=20 defs=VP_OWNREALLOC=16,LEN=0,NULLS
//@job O01 func=H_str_addc unwind=20 defs=VP_OWNREALLOC=16,LEN=3,FAILS=1
void H_str_addc(void){
	setup();
	char const c = vp_chr();
	TRY(harbol_string_add_char(&S, c));
	vp_assert(r==mem, "add_char succeeds unless memory ran out");
	if( r ) put(&c, 1);
	done();
}
//@job S01 func=H_str_rep unwind=20 defs=VP_OWNREALLOC=16,LEN=3
//@job S01 func=H_str_rep unwind=20 defs=VP_OWNREALLOC=16,LEN=0
//@job O01 func=H_str_rep unwind=20 defs=VP_OWNREALLOC=16,LEN=3,FAILS=1
static void rep(char const c, size_t const n){
	TRY(harbol_string_add_char_rep(&S, c, n));
	if( n > VP_MAXALLOC ) vp_assert(!r, "repetitions larger than memory are refused");
	else { vp_assert(r==mem, "add_char_rep succeeds unless memory ran out"); if( r ) for( size_t i=0;i<n;i++ ) put(&c, 1); }
	done();
}
void H_str_rep(void){
	setup();
	char const c = vp_chr(); size_t const k = vp_range(0, 9);
	for( size_t i=0;i<4;i++ ) if( k==i ) { rep(c, i); return; }
	for( size_t i=0;i<6;i++ ) if( k==i+4 ) { rep(c, SIZE_MAX-i); return; }
}
//@job S01 func=H_str_join unwind=20 defs=VP_OWNREALLOC=16,OP=0,LEN=3,LENB=2
//@job S01 func=H_str_join unwind=20 defs=VP_OWNREALLOC=16,OP=1,LEN=3,LENB=2
//@job S01 func=H_str_join unwind=20 defs=VP_OWNREALLOC=16,OP=2,LEN=3,LENB=2
//@job S01 func=H_str_join unwind=20 defs=VP_OWNREALLOC=16,OP=3,LEN=3,LENB=2
//@job S01 func=H_str_join unwind=20 defs=VP_OWNREALLOC=16,OP=0,LEN=0,LENB=2,NULLS
//@job S01 func=H_str_join unwind=20 defs=VP_OWNREALLOC=16,OP=1,LEN=0,LENB=2,NULLS
//@job S01 func=H_str_join unwind=20 defs=VP_OWNREALLOC=16,OP=2,LEN=0,LENB=2,NULLS
//@job S01 func=H_str_join unwind=20 defs=VP_OWNREALLOC=16,OP=3,LEN=1,LENB=3
//@job S01 func=H_str_join unwind=20 defs=VP_OWNREALLOC=16,OP=0,LEN=2,LENB=0
//@job S01 func=H_str_join unwind=20 defs=VP_OWNREALLOC=16,OP=1,LEN=2,LENB=0
//@job S01 func=H_str_join unwind=20 defs=VP_OWNREALLOC=16,OP=2,LEN=2,LENB=0
//@job S01 func=H_str_join unwind=20 defs=VP_OWNREALLOC=16,OP=3,LEN=2,LENB=0
//@job S01 func=H_str_join unwind=20 defs=VP_OWNREALLOC=16,OP=4,LEN=3
//@job S01 func=H_str_join unwind=20 defs=VP_OWNREALLOC=16,OP=5,LEN=3
//@job O01 func=H_str_join unwind=20 defs=VP_OWNREALLOC=16,OP=0,LEN=3,LENB=2,FAILS=1
//@job O01 func=H_str_join unwind=20 defs=VP_OWNREALLOC=16,OP=1,LEN=3,LENB=2,FAILS=1
//@job O01 func=H_str_join unwind=20 defs=VP_OWNREALLOC=16,OP=2,LEN=3,LENB=2,FAILS=1
//@job O01 func=H_str_join unwind=20 defs=VP_OWNREALLOC=16,OP=3,LEN=3,LENB=2,FAILS=1
#ifndef OP
#define OP 0
#endif
void H_str_join(void){
	setup();
	char b[MAX+1]; other(b);
	struct HarbolString T = { b, LENB };
	bool const copy = OP==1 || OP==3 || OP==5, self = OP==4 || OP==5;
	TRY(OP==0? harbol_string_add_str(&S, &T) : OP==1? harbol_string_copy_str(&S, &T)
		: OP==2? harbol_string_add_cstr(&S, b) : OP==3? harbol_string_copy_cstr(&S, b)
		: OP==4? harbol_string_add_str(&S, &S) : harbol_string_copy_str(&S, &S));
	if( LENB==0 && (OP==2 || OP==3) ) vp_assert(!r, "nothing to add or copy is reported");
	else vp_assert(r==mem, "succeeds unless memory ran out");
	if( self ) { if( r && !copy ) { char t[LEN+1]; memcpy(t, ref, LEN); put(t, LEN); } }
	else if( r ) { if( copy ) rlen = 0; put(b, LENB); }
	done();
}
//@job S01 func=H_str_make unwind=20 defs=VP_OWNREALLOC=16,LENB=3
//@job S01 func=H_str_make unwind=20 defs=VP_OWNREALLOC=16,LENB=0
//@job O01 func=H_str_make unwind=20 defs=VP_OWNREALLOC=16,LENB=3,FAILS=1
void H_str_make(void){
	char b[MAX+1]; other(b); rlen = 0;
	vp_alloc_may_fail = FAILS;
	if( vp_bool() ) {
		bool ok=true; S = harbol_string_make(b, &ok);
		vp_assert(ok==(LENB>0 && vp_failed==0), "creation reports whether there is a text");
		if( ok ) put(b, LENB);
		done();
	} else {
		struct HarbolString *p = harbol_string_new(b);
		vp_assert((p!=NULL)==(vp_failed==0), "creation on the heap fails exactly when memory ran out");
		vp_alloc_may_fail = 0;
		if( p ) { S = *p; put(b, LENB); same(); harbol_string_free(&p); vp_assert(p==NULL, "pointer cleared"); vp_reach("heap"); }
		vp_assert(vp_live==0, "released");
	}
}
//@job S01 func=H_str_fmt unwind=20 defs=VP_OWNREALLOC=16,LEN=3,LENB=2
//@job S01 func=H_str_fmt unwind=20 defs=VP_OWNREALLOC=16,LEN=0,LENB=3,NULLS
//@job S01 func=H_str_fmt unwind=20 defs=VP_OWNREALLOC=16,LEN=4,LENB=0,CLR=1
//@job S01 func=H_str_fmt unwind=20 defs=VP_OWNREALLOC=16,LEN=3,LENB=2,CLR=1
//@job O01 func=H_str_fmt unwind=20 defs=VP_OWNREALLOC=16,LEN=3,LENB=2,FAILS=1
#ifndef CLR
#define CLR 0
#endif
void H_str_fmt(void){
	setup();
	char b[MAX+1]; other(b); char const c = vp_chr();
	TRY(harbol_string_format(&S, CLR, "<%s%c", b, (int)c)==LENB+2);
	vp_assert(r==mem, "formatting succeeds unless memory ran out");
	if( r ) { if( CLR ) rlen = 0; put("<", 1); put(b, LENB); put(&c, 1); }
	done();
}
//@job S01 func=H_str_map unwind=20 defs=LEN=4
//@job S01 func=H_str_map unwind=20 defs=LEN=5
//@job S01 func=H_str_map unwind=20 defs=LEN=0,NULLS
void H_str_map(void){
	setup();
	bool want=false, r;
	char const x = vp_chr(), y = vp_chr();
	switch( vp_u8() ) {
	case 0: for( size_t i=0;i<LEN;i++ ) if( ref[i]>='a' && ref[i]<='z' ) { ref[i] -= 32; want = true; } r = harbol_string_upper(&S); break;
	case 1: for( size_t i=0;i<LEN;i++ ) if( ref[i]>='A' && ref[i]<='Z' ) { ref[i] += 32; want = true; } r = harbol_string_lower(&S); break;
	case 2: for( size_t i=0;i<LEN/2;i++ ) { char t = ref[i]; ref[i] = ref[LEN-1-i]; ref[LEN-1-i] = t; want = true; } r = harbol_string_reverse(&S); break;
	case 3: for( size_t i=0;i<LEN;i++ ) if( ref[i]==x ) { ref[i]=y; want = true; } r = harbol_string_replace_char(&S, x, y); break;
	default: r = want = harbol_string_replace_char(&S, x, 0); want = false; break;
	}
	vp_assert(r==want, "reports whether anything changed");
	done();
}
//@job S01 func=H_str_rm unwind=20 defs=LEN=4
//@job S01 func=H_str_rm unwind=20 defs=LEN=5
//@job S01 func=H_str_rm unwind=20 defs=LEN=0,NULLS
void H_str_rm(void){
	setup();
	char const x = vp_chr(); bool const sp = vp_bool();
	size_t n = 0, k = 0;
	for( size_t i=0;i<LEN;i++ ) {
		bool const hit = sp? (ref[i]==' ' || (ref[i]>=9 && ref[i]<=13)) : ref[i]==x;
		if( hit ) n++; else ref[k++] = ref[i];
	}
	rlen = k;
	vp_assert((sp? harbol_string_trim_spaces(&S) : harbol_string_rm_char(&S, x))==n, "number of characters removed");
	done();
}
extern uint8_t vp_fdata[17]; extern size_t vp_flen; extern bool vp_fmissing; extern int vp_fopened;
//@job S01 func=H_str_file unwind=20 defs=VP_STDIO,VP_OWNREALLOC=16,LEN=4,FLEN=2
//@job S01 func=H_str_file unwind=20 defs=VP_STDIO,VP_OWNREALLOC=16,LEN=1,FLEN=3
//@job S01 func=H_str_file unwind=20 defs=VP_STDIO,VP_OWNREALLOC=16,LEN=2,FLEN=0
//@job S01 func=H_str_file unwind=20 defs=VP_STDIO,VP_OWNREALLOC=16,LEN=0,NULLS,FLEN=3
//@job O01 func=H_str_file unwind=20 defs=VP_STDIO,VP_OWNREALLOC=16,LEN=1,FLEN=3,FAILS=1
#ifndef FLEN
#define FLEN 2
#endif
void H_str_file(void){
	setup();
	vp_flen = FLEN; vp_fmissing = vp_bool();
	for( size_t i=0;i<FLEN;i++ ) vp_fdata[i] = (uint8_t)vp_chr();
	TRY(harbol_string_read_file(&S, "f"));
	vp_assert(r==(mem && FLEN>0 && !vp_fmissing), "reading succeeds exactly when there is text to read");
	vp_assert(vp_fopened==0, "file closed");
	if( r ) { rlen = 0; put((char*)vp_fdata, FLEN); }
	done();
}
/* ---- S02: search and replacement ---- */
//@job S02 func=H_str_cmp unwind=20 defs=LEN=4,LENB=4
//@job S02 func=H_str_cmp unwind=20 defs=LEN=5,LENB=2
//@job S02 func=H_str_cmp unwind=20 defs=LEN=3,LENB=3
//@job S02 func=H_str_cmp unwind=20 defs=LEN=3,LENB=2
//@job S02 func=H_str_cmp unwind=20 defs=LEN=1,LENB=3
//@job S02 func=H_str_cmp unwind=20 defs=LEN=0,LENB=2,NULLS
void H_str_cmp(void){
	setup();
	char b[MAX+1]; other(b);
	struct HarbolString T = { b, LENB };
	int want = 0;
	for( size_t i=0;i<=(LEN<LENB? LEN : LENB);i++ ) { int d = (int)(uint8_t)(i<LEN? ref[i] : 0) - (int)(uint8_t)b[i]; if( d ) { want = d; break; } }
	int const r = harbol_string_cmpstr(&S, &T);
	vp_assert((r==0)==(LEN==LENB && want==0), "cmpstr is 0 exactly for equal texts");
	if( S.cstr ) vp_assert((r<0)==(want<0), "cmpstr orders by bytes");
	vp_assert((harbol_string_cmpcstr(&S, b)==0)==(LEN==LENB && want==0), "cmpcstr is 0 exactly for equal texts");
	bool pal = LEN>0;
	for( size_t i=0;i<LEN;i++ ) if( ref[i]!=ref[LEN-1-i] ) pal = false;
	vp_assert(harbol_string_is_palindrome(&S)==pal, "palindrome");
	if( r==0 || LEN!=LENB ) vp_reach("compared");
	done();
}
static size_t match(size_t at, char const *b){ for( size_t i=0;i<LENB;i++ ) if( at+i>=LEN || ref[at+i]!=b[i] ) return 0; return 1; }
//@job S02 func=H_str_find unwind=7 defs=LEN=4,LENB=1
//@job S02 func=H_str_find unwind=7 defs=LEN=4,LENB=2
//@job S02 func=H_str_find unwind=7 defs=LEN=2,LENB=3
//@job S02 func=H_str_find unwind=7 defs=LEN=3,LENB=0
//@job S02 func=H_str_find unwind=7 defs=LEN=0,LENB=1,NULLS
//@job S02 func=H_str_find unwind=9 defs=LEN=6,LENB=2 tier=thorough
//@job S02 func=H_str_find unwind=9 defs=LEN=6,LENB=3 tier=thorough
void H_str_find(void){
	setup();
	char b[MAX+1]; other(b);
	char const c = vp_chr();
	size_t n = 0, first = SIZE_MAX;
	for( size_t i=LEN;i>0;i-- ) if( ref[i-1]==c ) { n++; first = i-1; }
	vp_assert(harbol_string_count_char(&S, c)==n, "count of a character");
	vp_assert(harbol_string_find_char(&S, c)==first, "first position of a character");
	n = 0;
	if( LENB ) for( size_t i=0;i<LEN; ) if( match(i, b) ) { n++; i += LENB; } else i++;
	vp_assert(harbol_string_count_cstr(&S, b)==n, "count of a substring, left to right without overlap");
	size_t offs[3] = {77,77,77};
	harbol_string_cstr_offsets(&S, b, offs, 3);
	if( S.cstr && LENB ) {
		size_t at = 0;
		for( size_t k=0;k<3;k++ ) {
			while( at<LEN && !match(at, b) ) at++;
			vp_assert(offs[k]==(at<LEN? at : SIZE_MAX), "k-th position of a substring, none when there are fewer");
			if( at<LEN ) at++;
		}
	}
	done();
}
#ifndef WLEN
#define WLEN 1
#endif
//@job S02 func=H_str_repl unwind=8 us=raw_alloc.0:11,vp_realloc.0:11 defs=VP_OWNREALLOC=10,VP_SPLITALLOC=10,LEN=3,LENB=1,WLEN=2
//@job S02 func=H_str_repl unwind=8 us=raw_alloc.0:11,vp_realloc.0:11 defs=VP_OWNREALLOC=10,VP_SPLITALLOC=10,LEN=4,LENB=2,WLEN=1
//@job S02 func=H_str_repl unwind=8 us=raw_alloc.0:11,vp_realloc.0:11 defs=VP_OWNREALLOC=10,VP_SPLITALLOC=10,LEN=4,LENB=1,WLEN=0
//@job S02 func=H_str_repl unwind=8 us=raw_alloc.0:11,vp_realloc.0:11 defs=VP_OWNREALLOC=10,VP_SPLITALLOC=10,LEN=3,LENB=2,WLEN=3
//@job S02 func=H_str_repl unwind=8 us=raw_alloc.0:11,vp_realloc.0:11 defs=VP_OWNREALLOC=10,VP_SPLITALLOC=10,LEN=2,LENB=0,WLEN=1
//@job O01 func=H_str_repl unwind=8 us=raw_alloc.0:11,vp_realloc.0:11 defs=VP_OWNREALLOC=10,VP_SPLITALLOC=10,LEN=3,LENB=1,WLEN=2,FAILS=1
//@job S02 func=H_str_repl unwind=12 us=raw_alloc.0:17,vp_realloc.0:17 defs=VP_OWNREALLOC=16,VP_SPLITALLOC=16,LEN=5,LENB=2,WLEN=3 tier=thorough
//@job S02 func=H_str_repl unwind=12 us=raw_alloc.0:17,vp_realloc.0:17 defs=VP_OWNREALLOC=16,VP_SPLITALLOC=16,LEN=5,LENB=1,WLEN=2 tier=thorough
void H_str_repl(void){
	setup();
	char b[MAX+1], w[WLEN+1]; other(b); for( size_t i=0;i<WLEN;i++ ) w[i] = vp_chr(); w[WLEN]=0;
	size_t const amount = vp_u64();
	char out[MAX+1]; size_t n = 0, k = 0;
	for( size_t i=0;i<LEN; ) if( LENB && n<amount && match(i, b) ) { for( size_t j=0;j<WLEN;j++ ) out[k++] = w[j]; n++; i += LENB; } else out[k++] = ref[i++];
	TRY(harbol_string_replace_cstr(&S, b, w, amount));
	if( 1 ) vp_assert(r==(n>0 && mem), "replacement reports whether anything was replaced");
	if( r ) { rlen = 0; put(out, k); }
	done();
}
//@job S02 func=H_str_range unwind=8 us=raw_alloc.0:11,vp_realloc.0:11 defs=VP_OWNREALLOC=10,VP_SPLITALLOC=10,LEN=4,WLEN=2
//@job S02 func=H_str_range unwind=8 us=raw_alloc.0:11,vp_realloc.0:11 defs=VP_OWNREALLOC=10,VP_SPLITALLOC=10,LEN=3,WLEN=0
//@job S02 func=H_str_range unwind=8 us=raw_alloc.0:11,vp_realloc.0:11 defs=VP_OWNREALLOC=10,VP_SPLITALLOC=10,LEN=0,WLEN=1,NULLS
//@job O01 func=H_str_range unwind=8 us=raw_alloc.0:11,vp_realloc.0:11 defs=VP_OWNREALLOC=10,VP_SPLITALLOC=10,LEN=3,WLEN=2,FAILS=1
//@job S02 func=H_str_range unwind=12 us=raw_alloc.0:17,vp_realloc.0:17 defs=VP_OWNREALLOC=16,VP_SPLITALLOC=16,LEN=7,WLEN=4 tier=thorough
void H_str_range(void){
	setup();
	char w[WLEN+1]; for( size_t i=0;i<WLEN;i++ ) w[i] = vp_chr(); w[WLEN]=0;
	size_t const lo = vp_u64(), up = vp_u64();
	TRY(harbol_string_replace_range(&S, lo, up, w));
	size_t const hi = up>=LEN? LEN-1 : up;
	vp_assert(r==(lo<LEN && lo<=hi && mem), "range replacement succeeds exactly for a proper range");
	if( r ) { char t[MAX+1]; size_t k=0; for( size_t i=0;i<LEN;i++ ) { if( i==lo ) for( size_t j=0;j<WLEN;j++ ) t[k++]=w[j]; if( i<lo || i>hi ) t[k++]=ref[i]; } rlen=0; put(t, k); }
	done();
}
/* longer texts, a few operations in a row: nothing depends on a length */
#define LT 400
static char lt[LT]; static size_t ltn;
static void lput(char const *p, size_t n){ memcpy(lt+ltn, p, n); ltn += n; }
static void lsame(struct HarbolString const *s){
	vp_assert(harbol_string_len(s)==ltn && harbol_string_empty(s)==(ltn==0), "length of the text");
	char const *const p = harbol_string_cstr(s);
	if( p==NULL ) { vp_assert(ltn==0, "text lost"); return; }
	for( size_t i=0;i<ltn;i++ ) vp_assert(p[i]==lt[i], "character differs");
	vp_assert(p[ltn]==0, "terminator");
}
static void lpat(char *p, size_t n, char any){ for( size_t i=0;i<n;i++ ) p[i] = "ab Axyz\txQ!"[i%11]; p[n/2] = any; p[n] = 0; }
#ifndef STEPS
#define STEPS 3
#endif
//@job S01 engine=sx func=H_str_hist defs=STEPS=3
//@job S01 engine=sx func=H_str_hist defs=STEPS=4 tier=thorough timeout=800 steps=400000000
void H_str_hist(void){
	static size_t const sz[] = {1, 9, 17, 40};
	struct HarbolString *s = harbol_string_new("Start"); vp_assume(s != NULL);
	struct HarbolString t = {0};
	ltn = 0; lput("Start", 5);
	char const any = vp_chr(); bool const plain = !(any=='x' || any==' ' || (any>=9 && any<=13) || (any>='a' && any<='z') || (any>='A' && any<='Z')); vp_assume(plain);
	char b[50];
	for( int k=0;k<STEPS;k++ ) {
		size_t const n = sz[vp_pick(0, 3)];
		switch( vp_pick(0, 9) ) {
		case 0: vp_assert(harbol_string_add_char_rep(s, any, n), "put in"); for( size_t i=0;i<n;i++ ) lput(&any, 1); vp_assert(harbol_string_add_char(s, 'q'), "put in"); lput("q", 1); break;
		case 1: lpat(b, n, any); vp_assert(harbol_string_add_cstr(s, b), "put in"); lput(b, n); break;
		case 2: lpat(b, n, any); vp_assert(harbol_string_copy_cstr(s, b), "replaced"); ltn = 0; lput(b, n); break;
		case 3: vp_assert(harbol_string_copy_str(&t, s), "copied"); lsame(&t); vp_assert(harbol_string_cmpstr(&t, s)==0, "equal"); if( n==1 ) { vp_assert(harbol_string_add_str(s, &t), "joined"); lput(lt, ltn); } break;
		case 4: lpat(b, n, any); vp_assert(harbol_string_format(s, n>9, "<%s>", b)==(int)n+2, "formatted"); if( n>9 ) ltn = 0; lput("<", 1); lput(b, n); lput(">", 1); vp_reach("formatted"); break;
		case 5: { bool w = false; for( size_t i=0;i<ltn;i++ ) { char c = lt[i]; if( n>9? c>='a' && c<='z' : c>='A' && c<='Z' ) { lt[i] = (char)(c ^ 32); w = true; } } vp_assert((n>9? harbol_string_upper(s) : harbol_string_lower(s))==w, "reports whether anything changed"); break; }
		case 6: for( size_t i=0;i<ltn/2;i++ ) { char c = lt[i]; lt[i] = lt[ltn-1-i]; lt[ltn-1-i] = c; } vp_assert(harbol_string_reverse(s)==(ltn>1), "reversed"); break;
		case 7: { size_t j = 0, gone = 0; bool const sp = n>9; for( size_t i=0;i<ltn;i++ ) if( sp? lt[i]==' ' || lt[i]=='\t' : lt[i]=='x' ) gone++; else lt[j++] = lt[i]; ltn = j; vp_assert((sp? harbol_string_trim_spaces(s) : harbol_string_rm_char(s, 'x'))==gone, "how many were removed"); if( gone>2 ) vp_reach("removed"); break; }
		case 8: { bool w = false; for( size_t i=0;i<ltn;i++ ) if( lt[i]=='a' ) { lt[i] = 'x'; w = true; } vp_assert(harbol_string_replace_char(s, 'a', 'x')==w, "reports whether anything changed"); break; }
		default: { size_t const lo = n-1, hi = n+7; bool const ok = lo<ltn; vp_assert(harbol_string_replace_range(s, lo, hi, "<=>?")==ok, "range replaced"); if( ok ) { char u[LT]; size_t j = 0; for( size_t i=0;i<ltn;i++ ) { if( i==lo ) { memcpy(u+j, "<=>?", 4); j += 4; } if( i<lo || i>hi ) u[j++] = lt[i]; } ltn = 0; lput(u, j); } }
		}
		lsame(s);
	}
	harbol_string_clear(&t); harbol_string_free(&s);
	vp_assert(s==NULL && vp_live==0, "released");
	vp_reach("end");
}
/* searching and replacing in longer texts with repeated and overlapping parts */
static size_t lmatch(size_t at, char const *q, size_t m){ for( size_t i=0;i<m;i++ ) if( at+i>=ltn || lt[at+i]!=q[i] ) return 0; return 1; }
//@job S02 engine=sx func=H_str_search
void H_str_search(void){
	static char const *const texts[] = {"aaaaaaaaaaaaaaaaaa", "abababacababab--aab", "xyxyz xyz\nxyxyzz,,,,,,,,,,,,,,,,,,,,xyz", "q", "0123456789abcdefghijklmnopqrstuvwxyz!"};
	static char const *const parts[] = {"a", "aa", "aba", "xyz", "xyxyz", ",,,,", "z!", "abcdefghijklmnopqrstuvwxyz!", "q", "qq", "no"};
	static char const *const withs[] = {"", "a", "zz", "<some longer words>"};
	size_t const ti = vp_pick(0, 4), pi = vp_pick(0, 10);
	char const *const q = parts[pi]; size_t const m = strlen(q);
	ltn = 0; lput(texts[ti], strlen(texts[ti]));
	bool ok = false; struct HarbolString s = harbol_string_make(texts[ti], &ok); vp_assume(ok);
	size_t n = 0, pos[20], np = 0;
	for( size_t i=0;i<ltn; ) if( lmatch(i, q, m) ) { n++; i += m; } else i++;
	for( size_t i=0;i<ltn;i++ ) if( lmatch(i, q, m) ) pos[np++] = i;
	vp_assert(harbol_string_count_cstr(&s, q)==n, "count of a substring, left to right without overlap");
	if( m==1 ) vp_assert(harbol_string_count_char(&s, q[0])==np && harbol_string_find_char(&s, q[0])==(np? pos[0] : SIZE_MAX), "count and first position of a character");
	size_t offs[20]; for( size_t i=0;i<20;i++ ) offs[i] = 77;
	size_t const ask = vp_pick(0, 1)? 20 : 2;
	harbol_string_cstr_offsets(&s, q, offs, ask);
	for( size_t i=0;i<ask;i++ ) vp_assert(offs[i]==(i<np? pos[i] : SIZE_MAX), "k-th position of a substring, none when there are fewer");
	for( size_t i=ask;i<20;i++ ) vp_assert(offs[i]==77, "nothing past the places given");
	char const *const w = withs[vp_pick(0, 3)]; size_t const wl = strlen(w), amounts[] = {0, 1, 3, SIZE_MAX}, amount = amounts[vp_pick(0, 3)];
	char out[LT]; size_t k = 0, done_ = 0;
	for( size_t i=0;i<ltn; ) if( done_<amount && lmatch(i, q, m) ) { memcpy(out+k, w, wl); k += wl; done_++; i += m; } else out[k++] = lt[i++];
	vp_assert(harbol_string_replace_cstr(&s, q, w, amount)==(done_>0), "replacement reports whether anything was replaced");
	ltn = 0; lput(out, k);
	lsame(&s);
	if( done_==3 ) vp_reach("three replaced");
	harbol_string_clear(&s);
	vp_assert(vp_live==0, "released");
}
