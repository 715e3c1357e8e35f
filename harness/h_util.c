// Small helpers of the common header: copying, hashing, whole files, formatting, choosing by text.
//@src str/str.c
//@rt vp_stdio.c
#include "vp.h"
#include <stdio.h>
#include "harbol_common_defines.h"
#include "harbol_common_includes.h"
#ifndef N
#define N 4
#endif
extern uint8_t vp_fdata[]; extern size_t vp_flen; extern bool vp_fmissing; extern int vp_fopened; void *vp_infile(void);
//@job U01 engine=sx func=H_copy defs=N=5,VP_STDIO,VP_FMAX=16
void H_copy(void){
	uint8_t s[N+1], d[N+1], o[N+1];
	for( int i=0;i<=N;i++ ) { s[i] = vp_u8(); o[i] = d[i] = vp_u8(); }
	size_t const n = vp_pick(0, N);
	vp_assert(harbol_mempcpy(d, s, n)==d+n, "behind the copy");
	for( size_t i=0;i<=N;i++ ) vp_assert(d[i]==(i<n? s[i] : o[i]), "exactly the bytes asked for");
	for( int i=0;i<=N;i++ ) d[i] = o[i];
	int const c = (int)vp_u64();
	size_t at = 0; while( at<n && s[at] != (uint8_t)c ) at++;
	void *const r = harbol_memccpy(d, s, c, n);
	vp_assert(r==(at<n? d+at+1 : NULL), "behind the stop byte, or nothing");
	size_t const k = at<n? at+1 : n;
	for( size_t i=0;i<=N;i++ ) vp_assert(d[i]==(i<k? s[i] : o[i]), "up to and with the stop byte, nothing more");
	vp_reach("copied");
	vp_alloc_may_fail = 1;
	if( n>0 ) {
		size_t const f0 = vp_failed;
		uint8_t *q = dup_data(s, n);
		vp_assert((q != NULL)==(vp_failed==f0), "a copy unless memory ran out");
		if( q ) { for( size_t i=0;i<n;i++ ) vp_assert(q[i]==s[i], "the copy has the bytes"); free(q); }
	}
	char t[N+1]; for( size_t i=0;i<n;i++ ) { t[i] = (char)s[i]; vp_assume(t[i] != 0); }
	t[n] = 0;
	size_t const f0 = vp_failed;
	char *z = dup_cstr(n, t);
	vp_assert((z != NULL)==(vp_failed==f0), "a copy unless memory ran out");
	if( z ) { for( size_t i=0;i<=n;i++ ) vp_assert(z[i]==t[i], "the copied text"); free(z); vp_reach("text copied"); }
	vp_assert(vp_live==0, "nothing is left");
}
static size_t sdbm(size_t h, size_t c){ return c + (h << 6) + (h << 16) - h; }
//@job U01 engine=sx func=H_hash unwind=10 defs=N=3
void H_hash(void){
	uint8_t b[8]; char t[N+1]; size_t const seed = vp_u64();
	size_t h = seed;
	for( int i=0;i<N;i++ ) { b[i] = vp_u8(); h = sdbm(h, b[i]); }
	vp_assert(array_hash(b, N, seed)==h, "hash of bytes");
	vp_assert(array_hash(b, 0, seed)==seed, "hash of nothing");
	h = seed;
	size_t n = 0;
	for( ; n<N; n++ ) { t[n] = (char)vp_range(0, 127); if( t[n]==0 ) break; h = sdbm(h, (size_t)t[n]); }
	t[n<N? n : N] = 0;
	vp_assert(string_hash(t, seed)==h, "hash of a text");
	vp_reach("hashed");
}
//@job U01 engine=sx func=H_hash_num unwind=10 defs=N=3
void H_hash_num(void){
	uint64_t const v = vp_u64(); size_t const seed = vp_u64(); size_t h = seed;
	for( int i=0;i<8;i++ ) h = sdbm(h, (v >> 8*i) & 255);
	vp_assert(int_hash(v, seed)==h, "hash of an integer");
	double f; memcpy(&f, &v, 8);
	vp_assert(f!=f || float_hash(f, seed)==h, "hash of a number");
	vp_reach("hashed");
}
//@job U01 engine=sx func=H_whole_file defs=N=6,VP_STDIO,VP_FMAX=16
void H_whole_file(void){
	vp_flen = vp_pick(0, N); for( size_t i=0;i<vp_flen;i++ ) vp_fdata[i] = vp_u8();
	vp_fmissing = vp_bool();
	vp_alloc_may_fail = 1;
	size_t n = 77; uint8_t *p;
	switch( vp_pick(0, 2) ) {
	case 0: p = make_buffer_from_binary("f", &n); break;
	case 1: p = (uint8_t *)make_buffer_from_text("f", &n); break;
	default: vp_assume(!vp_fmissing); p = make_buffer_from_file(vp_infile(), &n); vp_fopened--; break;
	}
	vp_assert(vp_fopened==0, "files opened are closed");
	vp_assert((p != NULL)==(!vp_fmissing && vp_flen>0 && vp_failed==0), "a buffer exactly when there is something to read and memory for it");
	if( p ) {
		vp_assert(n==vp_flen, "as many bytes as the file has");
		for( size_t i=0;i<vp_flen;i++ ) vp_assert(p[i]==vp_fdata[i], "exactly the bytes of the file");
		vp_assert(p[vp_flen]==0, "terminated");
		free(p); vp_reach("read");
	}
	vp_assert(vp_live==0, "nothing is left");
}
//@job U01 engine=sx func=H_choose defs=N=3,VP_STDIO,VP_FMAX=16
void H_choose(void){
	char t[N+1]; size_t const n = vp_pick(0, N);
	for( size_t i=0;i<n;i++ ) { t[i] = (char)vp_u8(); vp_assume(t[i] != 0); }
	t[n] = 0;
	static char const *const A[] = {"ab", "", "abc", "b", "ab"};
	size_t want = SIZE_MAX; for( size_t i=5;i>0;i-- ) if( !strcmp(A[i-1], t) ) want = i-1;
	vp_assert(cstr_switch(t, A[0], A[1], A[2], A[3], A[4], NULL)==want, "the first alternative that equals the text");
	vp_assert(cstr_switch(t, NULL)==SIZE_MAX, "no alternative");
	vp_reach("chosen");
}
//@job U01 engine=sx func=H_format defs=N=5,VP_STDIO,VP_FMAX=16
void H_format(void){
	char t[N+1]; size_t const n = vp_pick(0, N);
	for( size_t i=0;i<n;i++ ) { t[i] = (char)vp_u8(); vp_assume(t[i] != 0); }
	t[n] = 0;
	vp_alloc_may_fail = 1;
	char *r = sprintf_alloc("<%s>%u%%", t, 407u);
	vp_assert((r != NULL)==(vp_failed==0), "a text unless memory ran out");
	if( r ) {
		vp_assert(r[0]=='<', "begin");
		for( size_t i=0;i<n;i++ ) vp_assert(r[i+1]==t[i], "the argument");
		vp_assert(!strcmp(r+n+1, ">407%"), "the rest, terminated");
		free(r); vp_reach("formatted");
	}
	vp_assert(vp_live==0, "nothing is left");
}
//@job U01 engine=sx func=H_text_size defs=N=4,VP_STDIO,VP_FMAX=16
void H_text_size(void){
	size_t len = vp_pick(0, N); uint8_t *p = calloc(len+1, 1); size_t const was = len, want = vp_pick(0, N+3);
	uint8_t o[N]; for( size_t i=0;i<len;i++ ) o[i] = p[i] = (uint8_t)vp_range(1, 255);
	vp_alloc_may_fail = 1;
	uint8_t *q = harbol_resize_string(p, 1, &len, want);
	vp_assert((q != NULL)==(vp_failed==0), "resized unless memory ran out");
	if( !q ) { vp_assert(len==was, "unchanged"); q = p; vp_reach("refused"); }
	else { vp_assert(len==want, "the new length"); for( size_t i=was;i<=want;i++ ) vp_assert(q[i]==0, "the new part is zero"); }
	for( size_t i=0;i<was && i<len;i++ ) vp_assert(q[i]==o[i], "the text stays");
	free(q);
	vp_assert(vp_live==0, "nothing is left");
	vp_reach("resized");
}
