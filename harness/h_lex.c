// Scanners over a text of N arbitrary non-NUL bytes and its terminator, in a block of exactly that size.
//@src lex/lex.c
//@rt vp_libc.c
#include "vp.h"
#include <ctype.h>
#include "vp_str.h"
#include "lex/lex.h"
#ifndef N
#define N 4
#endif
static char *T, O[N+1];
static struct HarbolString B;
static void text(void){
	T = vp_malloc(N+1);
	for( size_t i=0;i<N;i++ ) { T[i] = O[i] = (char)vp_u8(); vp_assume(T[i] != 0); }
	T[N] = O[N] = 0;
}
static void untouched(void){ for( size_t i=0;i<=N;i++ ) vp_assert(T[i]==O[i], "the text is not changed"); }
static size_t nl(size_t a, size_t b){ size_t n=0; for( size_t i=0;i<N;i++ ) if( i>=a && i<b && O[i]=='\n' ) n++; return n; }
/* the collected text is [0,n) of the source, followed by nothing */
static void collected(size_t a, size_t b){
	vp_assert(B.len==b-a, "length of the collected text");
	for( size_t i=0;i<N;i++ ) if( i>=a && i<b ) vp_assert(B.cstr[i-a]==O[i], "collected text");
	if( B.cstr != NULL ) vp_assert(B.cstr[B.len]==0, "collected text is terminated");
}
static void done(void){
	untouched();
	free(T); harbol_string_clear(&B);
	vp_assert(vp_live==0, "released");
	vp_reach("end");
}
static int32_t lo, hi, also;
static bool chk(int32_t c){ return (c>=lo && c<=hi) || c==also; }
static void class(void){ lo = (int8_t)vp_u8(); hi = (int8_t)vp_u8(); also = (int8_t)vp_u8(); }

//@job L01 func=H_lex_skip unwind=8 defs=N=4,OP=0
//@job L01 func=H_lex_skip unwind=8 defs=N=4,OP=1
//@job L01 func=H_lex_skip unwind=8 defs=N=4,OP=2
//@job L01 func=H_lex_skip unwind=8 defs=N=5,OP=2
//@job L01 func=H_lex_skip unwind=8 defs=N=1,OP=2
//@job L01 func=H_lex_skip unwind=8 defs=N=0,OP=0
//@job L01 func=H_lex_skip unwind=8 defs=N=0,OP=1
//@job L01 func=H_lex_skip unwind=11 defs=N=8,OP=0 tier=thorough
//@job L01 func=H_lex_skip unwind=11 defs=N=8,OP=1 tier=thorough
//@job L01 func=H_lex_skip unwind=11 defs=N=8,OP=2 tier=thorough
#ifndef OP
#define OP 0
#endif
void H_lex_skip(void){
	text(); class();
	uint32_t const l0 = (uint32_t)vp_range(0, 1000); uint32_t lines = l0;
	size_t e = 0;
#if OP==0
	char const *p = skip_chars(T, chk, &lines);
	while( O[e] != 0 && chk(O[e]) ) e++;
	vp_assert(lines==l0+nl(0,e), "newlines skipped are counted");
#elif OP==1
	char const *p = skip_chars_until_newline(T, chk);
	while( O[e] != 0 && O[e] != '\n' && chk(O[e]) ) e++;
#else
	char const esc = (char)vp_u8();
	char const *p = skip_string_literal(T, esc);
	for( e=1; O[e] != 0 && O[e] != O[0]; e++ ) if( O[e]==esc && O[e+1] != 0 ) e++;
#endif
	vp_assert(p==T+e, "stops where it should");
	done();
}

/* end of a comment to the end of the line; a backslash continues it on the next line */
static size_t line_end(void){
	size_t e = 0; bool more = false;
	for( ; O[e] != 0; e++ ) {
		if( O[e]=='\\' ) more = true;
		if( O[e]=='\n' ) { if( !more ) break; more = false; }
	}
	return e;
}
//@job L01 func=H_lex_line unwind=8 defs=N=4,OP=0
//@job L01 func=H_lex_line unwind=8 defs=N=4,OP=1 us=memset.0:10
//@job L01 func=H_lex_line unwind=8 defs=N=4,OP=2
//@job L01 func=H_lex_line unwind=8 defs=N=1,OP=0
//@job L01 func=H_lex_line unwind=8 defs=N=1,OP=1
//@job L01 func=H_lex_line unwind=8 defs=N=2,OP=2
//@job L01 func=H_lex_line unwind=8 defs=N=0,OP=2
//@job L01 func=H_lex_line unwind=11 defs=N=7,OP=0 tier=thorough
//@job L01 func=H_lex_line unwind=11 defs=N=7,OP=1 tier=thorough
//@job L01 func=H_lex_line unwind=11 defs=N=7,OP=2 tier=thorough
void H_lex_line(void){
	text();
	uint32_t const l0 = (uint32_t)vp_range(0, 1000); uint32_t lines = l0;
	size_t const e = line_end();
#if OP==0
	char const *p = skip_single_line_comment(T, &lines);
	vp_assert(p==T+e, "stops at the end of the comment");
	vp_assert(lines==l0+nl(0,e), "newlines skipped are counted");
#elif OP==1
	char *p = clear_single_line_comment(T);
	vp_assert(p==T+e, "stops at the end of the comment");
	for( size_t i=0;i<N;i++ ) { if( i<e ) vp_assert(T[i]==(O[i]=='\n'? '\n' : ' '), "comment blanked, newlines kept"); else vp_assert(T[i]==O[i], "rest kept"); T[i]=O[i]; }
#else
	char const *p = NULL;
	bool const r = lex_single_line_comment(T, &p, &B, &lines);
	vp_assert(p==T+e, "stops at the end of the comment");
	vp_assert(lines==l0+nl(0,e), "newlines skipped are counted");
	collected(0, e);
	vp_assert(r==(e>0), "result");
#endif
	done();
}

#ifndef TL
#define TL 2
#endif
static char tok[TL+1];
static void token(void){ for( size_t i=0;i<TL;i++ ) { tok[i]=(char)vp_u8(); vp_assume(tok[i] != 0); } }
static bool at(size_t i){ for( size_t k=0;k<TL;k++ ) if( i+k>=N || O[i+k] != tok[k] ) return false; return true; }
//@job L01 func=H_lex_block unwind=8 defs=N=4,OP=0
//@job L01 func=H_lex_block unwind=8 defs=N=4,OP=1
//@job L01 func=H_lex_block unwind=8 defs=N=4,OP=2
//@job L01 func=H_lex_block unwind=8 defs=N=4,OP=3
//@job L01 func=H_lex_block unwind=8 defs=N=4,OP=4
//@job L01 func=H_lex_block unwind=8 defs=N=4,OP=0,TL=1
//@job L01 func=H_lex_block unwind=8 defs=N=3,OP=1,TL=1
//@job L01 func=H_lex_block unwind=8 defs=N=3,OP=2,TL=1
//@job L01 func=H_lex_block unwind=8 defs=N=3,OP=3,TL=1
//@job L01 func=H_lex_block unwind=8 defs=N=5,OP=4,TL=1
//@job L01 func=H_lex_block unwind=8 defs=N=5,OP=3,TL=3
//@job L01 func=H_lex_block unwind=8 defs=N=0,OP=3,TL=1
//@job L01 func=H_lex_block unwind=8 defs=N=0,OP=4,TL=1
//@job L01 func=H_lex_block unwind=11 defs=N=7,OP=0 tier=thorough
//@job L01 func=H_lex_block unwind=11 defs=N=7,OP=1 tier=thorough
//@job L01 func=H_lex_block unwind=11 defs=N=7,OP=2 tier=thorough
//@job L01 func=H_lex_block unwind=11 defs=N=7,OP=3 tier=thorough
//@job L01 func=H_lex_block unwind=11 defs=N=7,OP=4,TL=3 tier=thorough
void H_lex_block(void){
	text(); token();
	uint32_t const l0 = (uint32_t)vp_range(0, 1000); uint32_t lines = l0;
#if OP<=2
	size_t e = 1;
	while( O[e] != 0 && !at(e) ) e++;
	size_t const b = e, n = nl(1,e);
	bool const closed = O[e] != 0;
	if( closed ) e += TL;
#endif
#if OP==0
	char const *p = skip_multi_line_comment(T, tok, TL, &lines);
	vp_assert(lines==l0+n, "newlines skipped are counted");
#elif OP==1
	char *p = clear_multi_line_comment(T, tok, TL);
	for( size_t i=0;i<N;i++ ) {
		if( i<e ) vp_assert(T[i]==(i>0 && i<b && O[i]=='\n'? '\n' : ' '), "comment blanked, newlines kept");
		else vp_assert(T[i]==O[i], "rest kept");
		T[i] = O[i];
	}
#elif OP==2
	char const *p = NULL;
	bool const r = lex_multi_line_comment(T, &p, tok, TL, &B, &lines);
	vp_assert(r, "result");
	vp_assert(lines==l0+n, "newlines skipped are counted");
	if( closed ) collected(0, e);
	else { vp_assert(B.len>=e, "length of the collected text"); for( size_t i=0;i<N;i++ ) vp_assert(B.cstr[i]==O[i], "collected text"); }
#elif OP==3
	char const esc = (char)vp_u8();
	char const *p = skip_multiquote_string(T, tok, TL, esc);
	size_t e = 0;
	for( ; O[e] != 0 && !at(e); e++ ) if( O[e]==esc && O[e+1] != 0 ) e++;
	if( O[e] != 0 ) e += TL;
#else
	char const *p = NULL; size_t const z0 = (size_t)vp_range(0,1000); size_t z = z0;
	bool const r = lex_multiquote_string(T, &p, tok, TL, &B, &z);
	size_t const a = at(0)? TL : 0;
	size_t e = a;
	while( O[e] != 0 && !at(e) ) e++;
	collected(a, e);
	vp_assert(r, "result");
	vp_assert(z==z0+nl(a,e), "newlines skipped are counted");
	if( O[e] != 0 ) e += TL;
#endif
	vp_assert(p==T+e, "stops behind the closing token");
	done();
}

//@job L01 func=H_lex_until unwind=8 defs=N=4,OP=0
//@job L01 func=H_lex_until unwind=8 defs=N=4,OP=1
//@job L01 func=H_lex_until unwind=8 defs=N=4,OP=2
//@job L01 func=H_lex_until unwind=8 defs=N=0,OP=0
//@job L01 func=H_lex_until unwind=8 defs=N=0,OP=1
//@job L01 func=H_lex_until unwind=8 defs=N=0,OP=2
//@job L01 func=H_lex_until unwind=11 defs=N=7,OP=0 tier=thorough
//@job L01 func=H_lex_until unwind=11 defs=N=7,OP=1 tier=thorough
//@job L01 func=H_lex_until unwind=11 defs=N=7,OP=2 tier=thorough
void H_lex_until(void){
	text(); class();
	char const *p = T; size_t e = 0;
#if OP==0
	bool const r = lex_until_false(T, &p, &B, chk);
	while( O[e] != 0 && chk(O[e]) ) e++;
	vp_assert(r==(e>0), "result");
#elif OP==1
	bool const r = lex_until(T, &p, &B, also);
	while( O[e] != 0 && O[e] != also ) e++;
	vp_assert(r==(e>0), "result");
#else
	bool const r = lex_c_style_identifier(T, &p, &B);
	/* letters, digits, underscore and bytes of multi-byte characters (the byte 0xFF is in none) */
#define LETTER(c) (((c)>='a' && (c)<='z') || ((c)>='A' && (c)<='Z') || (c)=='_' || (c) < -1)
	if( LETTER(O[0]) ) while( LETTER(O[e]) || (O[e]>='0' && O[e]<='9') ) e++;
	vp_assert(r==(e>0), "result");
#endif
	collected(0, e);
	vp_assert(p==T+e, "stops where it should");
	done();
}

//@job L01 func=H_lex_class unwind=6
void H_lex_class(void){
	int32_t const c = (int32_t)vp_u64();
	bool const dec = c>='0' && c<='9', low = c>='a' && c<='z', up = c>='A' && c<='Z';
	vp_assert(is_decimal(c)==dec, "decimal digits");
	vp_assert(is_octal(c)==(dec && c<'8'), "octal digits");
	vp_assert(is_binary(c)==(c=='0' || c=='1'), "binary digits");
	vp_assert(is_hex(c)==(dec || (low && c<='f') || (up && c<='F')), "hex digits");
	vp_assert(is_whitespace(c)==(c==' ' || (c>='\t' && c<='\r')), "white space");
	if( c >= -1 ) {
		vp_assert(is_alphabetic(c)==(low || up || c=='_'), "letters");
		vp_assert(is_possible_id(c)==(low || up || c=='_' || dec), "identifier characters");
	}
	char s[4]; int32_t u[4];
	for( size_t i=0;i<4;i++ ) { s[i]=(char)vp_u8(); u[i]=(int32_t)vp_u64(); }
	size_t const len = vp_range(0,4), idx = vp_u64();
	vp_assert(check_is_char(s, len, idx, c)==(idx<len && s[idx<4?idx:0] != 0 && s[idx<4?idx:0]==c), "character at an index");
	vp_assert(check_is_rune(u, len, idx, c)==(idx<len && u[idx<4?idx:0] != 0 && u[idx<4?idx:0]==c), "code point at an index");
	vp_reach("end");
}
