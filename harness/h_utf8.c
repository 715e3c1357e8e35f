// UTF-8: every code point, and every text of N arbitrary bytes in a block of exactly that size.
//@src lex/lex.c
//@rt vp_libc.c
#include "vp.h"
#include <ctype.h>
#include "vp_str.h"
#include "lex/lex.h"
#ifndef N
#define N 4
#endif
#ifndef R
#define R 2
#endif
#ifndef OP
#define OP 0
#endif
static char *T, O[N+1];
static void text(void){
	T = vp_malloc(N+1);
	for( size_t i=0;i<N;i++ ) { T[i] = O[i] = (char)vp_u8(); vp_assume(T[i] != 0); }
	T[N] = O[N] = 0;
}
static void release(void){
	for( size_t i=0;i<=N;i++ ) vp_assert(T[i]==O[i], "the text is not changed");
	free(T); vp_assert(vp_live==0, "released");
	vp_reach("end");
}
/* the definition of UTF-8 (surrogates counted as code points): length of the character at p, 0 if it is none */
static size_t ref_len(char const *p, int32_t *c){
	uint8_t const a = (uint8_t)p[0];
	if( a==0 ) return 0;
	if( a < 0x80 ) { *c = a; return 1; }
	size_t const n = (a>=0xC2 && a<=0xDF)? 2 : (a>=0xE0 && a<=0xEF)? 3 : (a>=0xF0 && a<=0xF4)? 4 : 0;
	if( n==0 ) return 0;
	int32_t r = n==2? a-0xC0 : n==3? a-0xE0 : a-0xF0;
	for( size_t i=1;i<4;i++ ) if( i<n ) {
		uint8_t const b = (uint8_t)p[i];
		if( b<0x80 || b>0xBF ) return 0;
		r = r*64 + (b-0x80);
	}
	if( (n==3 && r<0x800) || (n==4 && (r<0x10000 || r>0x10FFFF)) ) return 0;
	*c = r;
	return n;
}
/* T is a sequence of such characters? */
static int32_t C[N+1]; static size_t B[N+2], cn;
static bool wellformed(void){
	size_t i = 0; cn = 0; B[0] = 0;
	while( i<N ) {
		size_t const n = ref_len(&O[i], &C[cn]);
		if( n==0 ) return false;
		i += n; B[++cn] = i;
	}
	return true;
}
static size_t size_of(int32_t c){ return c<0x80? 1 : c<0x800? 2 : c<0x10000? 3 : 4; }

//@job L03 func=H_utf8_rune unwind=6 us=get_utf8_len.0:10
void H_utf8_rune(void){
	int32_t const c = (int32_t)vp_u64();
	size_t const n = vp_range(1,5);
	for( size_t k=1;k<=5;k++ ) if( n==k ) {
		char *p = vp_malloc(k);
		for( size_t i=0;i<k;i++ ) p[i] = 'z';
		size_t const w = write_utf8_cstr(p, k, c);
		if( c>0x10FFFF ) vp_assert(w==0 && rune_byte_len(c)==0, "no code point, no encoding");
		else if( c>=0 ) {
			size_t const z = size_of(c); int32_t d = -2;
			vp_assert(rune_byte_len(c)==z, "length of the encoding");
			vp_assert(w==(z<=k? z : 0), "encoded when it fits");
			for( size_t i=0;i<k;i++ ) if( i>=w ) vp_assert(p[i]=='z', "nothing written behind the encoding");
			if( w>0 && c>0 ) {
				vp_assert(ref_len(p, &d)==z && d==c, "the encoding is UTF-8");
				vp_assert(get_utf8_len(p[0])==z, "length told by the first byte");
				vp_assert(read_utf8(p, k, &d)==z && d==c, "decoded again");
				vp_assert(read_utf8_rune(p, k)==c, "decoded again");
				size_t ix = 0;
				vp_assert(utf8_to_rune_iter(p, k, &ix)==c && ix==z, "decoded again");
				for( size_t m=1;m<5;m++ ) if( m<z && m<=k ) {
					vp_assert(read_utf8(p, m, &d)==0 && read_utf8_rune(p, m)==-1, "truncated character refused");
					ix = 0; vp_assert(utf8_to_rune_iter(p, m, &ix)==-1, "truncated character refused");
				}
			}
		}
		free(p);
		vp_assert(vp_live==0, "released");
		vp_reach("end");
		return;
	}
}
//@job L03 func=H_utf8_valid unwind=6
void H_utf8_valid(void){
	int32_t const c = (int32_t)vp_u64();
	bool const v = c>=0 && c<=0x10FFFF && !(c>=0xD800 && c<=0xDFFF) && (c>=0xA0 || c=='$' || c=='@' || c=='`');
	vp_assert(is_valid_unicode(c)==v, "code points that may be escaped");
	int32_t u[5] = {0};
	size_t const n = vp_range(0,4);
	for( size_t i=0;i<4;i++ ) { u[i] = (int32_t)vp_u64(); vp_assume(u[i] != 0); }
	u[n] = 0;
	size_t at = SIZE_MAX;
	for( size_t i=0;i<4;i++ ) if( i<n && u[i]==c && at==SIZE_MAX ) at = i;
	vp_assert(find_rune_in_runes(u, c)==at, "place of a code point");
	vp_assert(has_rune_in_runes(u, c)==(at != SIZE_MAX), "presence of a code point");
	vp_reach("end");
}
/* arbitrary n bytes, no terminator: never reads outside of them */
//@job L03 func=H_utf8_bytes unwind=7 us=get_utf8_len.0:10
void H_utf8_bytes(void){
	size_t const n = vp_range(1,5);
	for( size_t k=1;k<=5;k++ ) if( n==k ) {
		char *p = vp_malloc(k);
		for( size_t i=0;i<k;i++ ) p[i] = (char)vp_u8();
		int32_t c = -2;
		size_t const m = read_utf8(p, k, &c);
		vp_assert(m<=k, "no more bytes than given");
		int32_t const e = read_utf8_rune(p, k);
		vp_assert(p[0]==0? m==0 && e==0 : (m>0? e==c : c==-1 && e==-1), "both readers agree");
		size_t ix = 0;
		int32_t const f = utf8_to_rune_iter(p, k, &ix);
		vp_assert(ix==m && f==c, "the iterator agrees");
		vp_assert(ix==0 || ix>=1, "progress");
		free(p);
		vp_reach("end");
		return;
	}
}
/* whole texts of R code points */
//@job L03 func=H_utf8_encode unwind=6 defs=R=2,VP_STRCAP=9 us=get_utf8_len.0:10
//@job L03 func=H_utf8_encode unwind=6 defs=R=1,VP_STRCAP=9,CSTR us=get_utf8_len.0:10
//@job L03 func=H_utf8_encode unwind=6 defs=R=0,VP_STRCAP=9 us=get_utf8_len.0:10
//@job L03 func=H_utf8_encode unwind=6 defs=R=3,VP_STRCAP=13 us=get_utf8_len.0:10 tier=thorough
void H_utf8_encode(void){
	int32_t u[R+1]; size_t total = 0;
	for( size_t i=0;i<R;i++ ) { u[i] = (int32_t)vp_u64(); vp_assume(u[i]>0 && u[i]<=0x10FFFF); total += size_of(u[i]); }
	u[R] = 0;
	size_t n = 77;
#ifdef CSTR
	char *p = rune_to_utf8_cstr(u, &n);
#else
	struct HarbolString const s = rune_to_utf8_str(u);
	char *p = s.cstr; n = s.len;
#endif
	vp_assert(n==total, "length of the encoded text");
	size_t k = 0;
	for( size_t i=0;i<R;i++ ) { int32_t c = 0; size_t const z = ref_len(&p[k], &c); vp_assert(z==size_of(u[i]) && c==u[i], "encoded text"); k += z; }
	if( p != NULL ) vp_assert(p[n]==0, "terminated");
#if R==0 && !defined(CSTR)
	int32_t *v = utf8_str_to_rune(&s, &n);
	vp_assert(v != NULL && n==0 && v[0]==0, "no characters in the empty text");
	free(v);
#endif
	free(p);
	vp_assert(vp_live==0, "released");
	vp_reach("end");
}
/* well-formed texts of code points of Z0, Z1 bytes, from bytes to code points and back */
#ifdef Z0
static size_t enc(char *p, size_t z, int32_t c){
	static uint8_t const lead[5] = {0,0,0xC0,0xE0,0xF0};
	for( size_t i=z; i-->1; ) { p[i] = (char)(0x80 | (c & 0x3F)); c >>= 6; }
	p[0] = (char)(lead[z] | c);
	return z;
}
static int32_t of_size(size_t z){
	int32_t const c = (int32_t)vp_u64();
	vp_assume(c>0 && c<=0x10FFFF && size_of(c)==z);
	return c;
}
//@job L03 func=H_utf8_back unwind=10 defs=Z0=1,Z1=4,VP_STRCAP=9 us=get_utf8_len.0:10
//@job L03 func=H_utf8_back unwind=10 defs=Z0=2,Z1=3,VP_STRCAP=9 us=get_utf8_len.0:10
//@job L03 func=H_utf8_back unwind=10 defs=Z0=3,Z1=2,VP_STRCAP=9 us=get_utf8_len.0:10
//@job L03 func=H_utf8_back unwind=10 defs=Z0=4,Z1=1,VP_STRCAP=9 us=get_utf8_len.0:10
//@job L03 func=H_utf8_back unwind=10 defs=Z0=3,Z1=4,VP_STRCAP=9 us=get_utf8_len.0:10 tier=thorough
//@job L03 func=H_utf8_back unwind=10 defs=Z0=4,Z1=4,VP_STRCAP=9 us=get_utf8_len.0:10 tier=thorough
//@job L03 func=H_utf8_back unwind=10 defs=Z0=2,Z1=2,VP_STRCAP=9 us=get_utf8_len.0:10 tier=thorough
void H_utf8_back(void){
	size_t const len = Z0+Z1;
	struct HarbolString s = { .cstr = vp_malloc(len+1), .len = len };
	int32_t const u[3] = { of_size(Z0), of_size(Z1), 0 };
	enc(s.cstr, Z0, u[0]); enc(s.cstr+Z0, Z1, u[1]); s.cstr[len] = 0;
	vp_assert(get_str_rune_len(s.cstr)==2, "number of characters");
	size_t ix = 0, n = 77;
	vp_assert(utf8_to_rune_iter(s.cstr, len, &ix)==u[0] && ix==Z0, "first character");
	vp_assert(utf8_to_rune_iter(s.cstr, len, &ix)==u[1] && ix==len, "second character");
	vp_assert(utf8_to_rune_iter(s.cstr, len, &ix)==-1 && ix==len, "no more characters at the end");
	int32_t *v = utf8_str_to_rune(&s, &n);
	vp_assert(v != NULL && n==2, "number of characters decoded");
	vp_assert(v[0]==u[0] && v[1]==u[1] && v[2]==0, "decoded text");
	free(v);
	vp_alloc_may_fail = 1;
	size_t const f0 = vp_failed;
	v = utf8_cstr_to_rune(s.cstr, len, &n);
	vp_alloc_may_fail = 0;
	vp_assert(v==NULL? vp_failed != f0 && n==0 : n==2, "fails only without memory");
	free(v);
	char *p = rune_to_utf8_cstr(u, &n);
	vp_assert(n==len, "length of the text encoded again");
	for( size_t i=0;i<=len;i++ ) vp_assert(p[i]==s.cstr[i], "text encoded again");
	free(p); harbol_string_clear(&s);
	vp_assert(vp_live==0, "released");
	vp_reach("end");
}
#endif
//@job L03 func=H_utf8_text unwind=7 defs=N=4 us=get_utf8_len.0:10
//@job L03 func=H_utf8_text unwind=7 defs=N=5 us=get_utf8_len.0:10
//@job L03 func=H_utf8_text unwind=7 defs=N=1 us=get_utf8_len.0:10
//@job L03 func=H_utf8_text unwind=7 defs=N=0 us=get_utf8_len.0:10
//@job L03 func=H_utf8_text unwind=9 defs=N=7 us=get_utf8_len.0:10 tier=thorough
void H_utf8_text(void){
	text();
	bool const ok = wellformed();
	size_t const count = get_str_rune_len(T);
	vp_assert(count<=N, "no more characters than bytes");
	if( ok ) vp_assert(count==cn, "number of characters");
	size_t n = 77;
	int32_t *v = utf8_cstr_to_rune(T, N, &n);
	vp_assert(v != NULL && n==count && v[n]==0, "decoded text");
	if( ok ) for( size_t i=0;i<N;i++ ) if( i<cn ) vp_assert(v[i]==C[i], "characters decoded in order");
	free(v);
	size_t ix = 0;
	for( size_t i=0;i<=N;i++ ) {
		size_t const b = ix;
		int32_t const c = utf8_to_rune_iter(T, N, &ix);
		vp_assert(ix>=b && ix<=N, "iteration stays in the text");
		if( ok ) { vp_assert(i<cn? c==C[i] && ix==B[i+1] : c==-1 && ix==b, "iteration over the characters"); }
		if( ix==b ) vp_assert(c==-1, "no character without bytes");
	}
	release();
}
static int32_t lo, hi;
static bool chk(int32_t c){ return c>=lo && c<=hi; }
//@job L03 func=H_utf8_until unwind=6 defs=N=4,VP_STRCAP=6 us=get_utf8_len.0:10
//@job L03 func=H_utf8_until unwind=7 defs=N=5,VP_STRCAP=7 us=get_utf8_len.0:10 tier=thorough
//@job L03 func=H_utf8_until unwind=7 defs=N=0 us=get_utf8_len.0:10
//@job L03 func=H_utf8_until unwind=9 defs=N=7 us=get_utf8_len.0:10 tier=thorough
void H_utf8_until(void){
	text();
	lo = (int32_t)vp_u64(); hi = (int32_t)vp_u64();
	struct HarbolString s = {0}; char const *p = NULL;
	bool const r = lex_until_false_utf8(T, &p, &s, chk);
	vp_assert(p>=T && p<=T+N, "stays in the text");
	if( wellformed() ) {
		size_t k = 0; while( k<cn && chk(C[k]) ) k++;
		vp_assert(p==T+B[k] && r==(k>0), "stops at the first character outside of the class");
		vp_assert(s.len==B[k], "length of the collected text");
		for( size_t i=0;i<N;i++ ) if( i<B[k] ) vp_assert(s.cstr[i]==O[i], "collected text");
	}
	harbol_string_clear(&s);
	release();
}

/* one code point appended to a text */
//@job L03 func=H_utf8_append engine=sx
void H_utf8_append(void){
	bool r; struct HarbolString s = harbol_string_make(vp_pick(0,1)? "ab" : "", &r); vp_assume(r);
	size_t const n = s.len;
	int32_t const u = (int32_t)vp_u64(); vp_assume(u>0);
	size_t const k = rune_byte_len(u);
	bool const ok = write_utf8_str(&s, u);
	vp_assert(ok==(k>0), "code points that have an encoding are written");
	vp_assert(s.len==n+(ok? k : 0) && s.cstr[s.len]==0, "by their length, terminated");
	if( n>0 ) vp_assert(s.cstr[0]=='a' && s.cstr[1]=='b', "the text before stays");
	if( ok ) {
		int32_t c = 0;
		if( u<=0x10FFFF ) { vp_assert(ref_len(s.cstr+n, &c)==k && c==u, "the encoding of the code point"); vp_reach("written"); }
		char b[5] = {0}; vp_assert(write_utf8_cstr(b, 5, u)==k && !memcmp(b, s.cstr+n, k), "the same as into a buffer");
	} else vp_reach("refused");
	harbol_string_clear(&s);
	vp_assert(vp_live==0, "nothing is left");
}
