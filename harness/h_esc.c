// Escapes and quoted literals: text of N bytes (a fixed beginning PRE, arbitrary non-NUL bytes behind it) and its terminator.
//@src lex/lex.c
//@rt vp_libc.c
#include "vp.h"
#include <ctype.h>
#include "vp_str.h"
#include "lex/lex.h"
#ifndef N
#define N 4
#endif
#ifndef OP
#define OP 0
#endif
#ifndef PRE
#define PRE 0
#endif
#ifndef DIG	/* that many bytes behind the fixed beginning are hexadecimal digits */
#define DIG 0
#endif
static char const *const pre[] = {"", "\"\\x", "\"\\0", "\"\\u", "\"\\U", "`", "'\\7", "\"\\U001", "\"\\x1"};
static char *T, O[N+2];
static int hexval(char c){ return c>='0' && c<='9'? c-'0' : c>='a' && c<='f'? c-'a'+10 : c>='A' && c<='F'? c-'A'+10 : -1; }
static void text(void){
	T = vp_malloc(N+1); bool fix = true; size_t dig = DIG;
	for( size_t i=0;i<N;i++ ) {
		if( fix && pre[PRE][i]==0 ) fix = false;
		T[i] = O[i] = fix? pre[PRE][i] : (char)vp_u8();
		vp_assume(T[i] != 0);
		if( !fix && dig>0 ) { dig--; vp_assume(hexval(T[i])>=0); }
	}
	T[N] = O[N] = 0;
}
static void release(void){
	for( size_t i=0;i<=N;i++ ) vp_assert(T[i]==O[i], "the text is not changed");
	free(T); vp_assert(vp_live==0, "released");
	vp_reach("end");
}
/* meaning of the digits at O[*i]; -1 when there is none. *i moves behind the digits */
static int64_t hex(size_t *i){
	int64_t v = 0; size_t const b = *i;
	for( size_t k=0;k<N;k++ ) if( hexval(O[*i])>=0 ) { v = v>0x10FFFF? v : v*16 + hexval(O[*i]); ++*i; }
	return v>0x10FFFF || *i==b? -1 : v;
}
static int64_t octal(size_t *i, bool *many){
	int64_t v = 0; size_t const b = *i;
	for( size_t k=0;k<N;k++ ) if( O[*i]>='0' && O[*i]<='7' ) { v = v*8 + (O[*i]-'0'); ++*i; if( k==3 ) break; }
	*many = *i-b > 3;
	return *i==b? -1 : v;
}
static int64_t uni(size_t *i, size_t max){
	int64_t v = 0;
	for( size_t k=0;k<max && k<N;k++ ) { if( hexval(O[*i])<0 ) break; v = v*16 + hexval(O[*i]); ++*i; }
	return v>0x10FFFF || (v>=0xD800 && v<=0xDFFF) || (v<0xA0 && v!='$' && v!='@' && v!='`')? -1 : v;
}
//@job L04 func=H_esc_one unwind=10 defs=N=8,OP=0
//@job L04 func=H_esc_one unwind=7 defs=N=5,OP=1
//@job L04 func=H_esc_one unwind=11 defs=N=9,OP=2
//@job L04 func=H_esc_one unwind=6 defs=N=3,OP=0
//@job L04 func=H_esc_one unwind=6 defs=N=3,OP=1
//@job L04 func=H_esc_one unwind=7 defs=N=5,OP=2
//@job L04 func=H_esc_one unwind=14 defs=N=12,OP=0 tier=thorough
void H_esc_one(void){
	text();
	char const *p = NULL; size_t e = 0; bool many = false;
#if OP==0
	int64_t const v = hex(&e);
	int32_t const r = lex_hex_escape_char(T, &p);
	vp_assert(r==v, "value of the hexadecimal escape");
	if( v>=0 ) vp_assert(p==T+e, "ends behind its digits");
#elif OP==1
	int64_t const v = octal(&e, &many);
	int32_t const r = lex_octal_escape_char(T, &p);
	/* up to three digits; a fourth one is out of range when more text follows */
	if( !many ) vp_assert(r==v, "value of the octal escape");
	else vp_assert(r==v || r==-1, "value of the octal escape");
	if( r>=0 ) vp_assert(p==T+e, "ends behind its digits");
#else
	size_t const bytes = vp_bool()? 2 : 4;
	int64_t const v = uni(&e, bytes*2);
	int32_t const r = lex_unicode_char(T, &p, bytes);
	vp_assert(r==v, "value of the Unicode escape");
	if( v>=0 ) vp_assert(p==T+e, "ends behind its digits");
#endif
	vp_assert(p>=T && p<=T+N, "stays in the text");
	release();
}
static char X[3*N+5]; static size_t xn;
static void put(int64_t c){
	if( c<0x80 ) { X[xn++]=(char)c; return; }
	if( c<0x800 ) { X[xn++]=(char)(0xC0|c>>6); X[xn++]=(char)(0x80|(c&0x3F)); return; }
	if( c<0x10000 ) X[xn++]=(char)(0xE0|c>>12);
	else { X[xn++]=(char)(0xF0|c>>18); X[xn++]=(char)(0x80|(c>>12&0x3F)); }
	X[xn++]=(char)(0x80|(c>>6&0x3F)); X[xn++]=(char)(0x80|(c&0x3F));
}
enum { Good, Open, Hex, Octal, Uni };
static int literal(bool raw, size_t *end){
	size_t i = 1;
	for( size_t k=0;k<=N;k++ ) {
		if( O[i]==O[0] ) { *end = i+1; return Good; }
		if( O[i]==0 ) return Open;
		if( O[i] != '\\' ) { X[xn++] = O[i++]; continue; }
		char const c = O[i+1];
		if( c==0 ) return Open;
		if( raw ) { X[xn++]='\\'; X[xn++]=c; i += 2; continue; }
		int64_t v; bool many = false; int err;
		if( c=='x' || c=='X' ) { i += 2; v = hex(&i); err = Hex; }
		else if( c>='0' && c<='9' ) { i += 1; v = octal(&i, &many); err = Octal; if( many && O[i]==0 ) return Open; if( many ) return Octal; }
		else if( c=='u' || c=='U' ) { i += 2; v = uni(&i, c=='u'? 4 : 8); err = Uni; }
		else {
			char const *const from = "arbtvnNfe", *const to = "\a\r\b\t\v\n\n\f\x1b";
			char m = c;
			for( size_t q=0;q<9;q++ ) if( from[q]==c ) m = to[q];
			X[xn++] = m; i += 2; continue;
		}
		if( v<0 ) return err;
		put(v);
	}
	return Open;
}
//@job L04 func=H_esc_literal unwind=4 defs=N=4,VP_STRCAP=14,VP_STRSTEP us=literal.0:11,literal.1:5,text.0:6,release.0:6,hex.0:6,octal.0:6,uni.0:6,H_esc_literal.0:6,lex_hex_escape_char.0:4,lex_octal_escape_char.0:6,lex_unicode_char.0:10
//@job L04 func=H_esc_literal unwind=3 defs=N=3,GO,VP_STRCAP=14,VP_STRSTEP us=literal.0:11,literal.1:4,text.0:5,release.0:5,hex.0:5,octal.0:5,uni.0:5,H_esc_literal.0:5,lex_hex_escape_char.0:3,lex_octal_escape_char.0:6,lex_unicode_char.0:10
//@job L04 func=H_esc_literal unwind=1 defs=N=1,VP_STRCAP=14,VP_STRSTEP us=literal.0:11,literal.1:2,text.0:3,release.0:3,hex.0:3,octal.0:3,uni.0:3,H_esc_literal.0:3,lex_hex_escape_char.0:1,lex_octal_escape_char.0:6,lex_unicode_char.0:10
//@job L04 func=H_esc_literal unwind=5 defs=N=6,PRE=1,VP_STRCAP=14,VP_STRSTEP us=literal.0:11,literal.1:6,text.0:8,release.0:8,hex.0:8,octal.0:8,uni.0:8,H_esc_literal.0:8,lex_hex_escape_char.0:6,lex_octal_escape_char.0:6,lex_unicode_char.0:10
//@job L04 func=H_esc_literal unwind=5 defs=N=6,PRE=2,VP_STRCAP=14,VP_STRSTEP us=literal.0:11,literal.1:6,text.0:8,release.0:8,hex.0:8,octal.0:8,uni.0:8,H_esc_literal.0:8,lex_hex_escape_char.0:6,lex_octal_escape_char.0:6,lex_unicode_char.0:10
//@job L04 func=H_esc_literal unwind=5 defs=N=6,PRE=6,VP_STRCAP=14,VP_STRSTEP us=literal.0:11,literal.1:6,text.0:8,release.0:8,hex.0:8,octal.0:8,uni.0:8,H_esc_literal.0:8,lex_hex_escape_char.0:6,lex_octal_escape_char.0:6,lex_unicode_char.0:10
//@job L04 func=H_esc_literal unwind=4 defs=N=9,PRE=3,DIG=4,VP_STRCAP=14,VP_STRSTEP us=literal.0:11,literal.1:5,text.0:11,release.0:11,hex.0:11,octal.0:11,uni.0:11,H_esc_literal.0:11,lex_hex_escape_char.0:9,lex_octal_escape_char.0:6,lex_unicode_char.0:10
//@job L04 func=H_esc_literal unwind=4 defs=N=13,PRE=7,DIG=5,VP_STRCAP=14,VP_STRSTEP us=literal.0:11,literal.1:5,text.0:15,release.0:15,hex.0:15,octal.0:15,uni.0:15,H_esc_literal.0:15,lex_hex_escape_char.0:13,lex_octal_escape_char.0:6,lex_unicode_char.0:10
//@job L04 func=H_esc_literal unwind=4 defs=N=11,PRE=8,DIG=5,VP_STRCAP=14,VP_STRSTEP us=literal.0:11,literal.1:5,text.0:13,release.0:13,hex.0:13,octal.0:13,uni.0:13,H_esc_literal.0:13,lex_hex_escape_char.0:11,lex_octal_escape_char.0:6,lex_unicode_char.0:10
//@job L04 func=H_esc_literal unwind=4 defs=N=4,PRE=5,GO,VP_STRCAP=14,VP_STRSTEP us=literal.0:11,literal.1:5,text.0:6,release.0:6,hex.0:6,octal.0:6,uni.0:6,H_esc_literal.0:6,lex_hex_escape_char.0:4,lex_octal_escape_char.0:6,lex_unicode_char.0:10
//@job L04 func=H_esc_literal unwind=5 defs=N=5,VP_STRCAP=14,VP_STRSTEP us=literal.0:11,literal.1:6,text.0:7,release.0:7,hex.0:7,octal.0:7,uni.0:7,H_esc_literal.0:7,lex_hex_escape_char.0:5,lex_octal_escape_char.0:6,lex_unicode_char.0:10 tier=thorough
//@job L04 func=H_esc_literal unwind=6 defs=N=6,GO,VP_STRCAP=18,VP_STRSTEP us=literal.0:11,literal.1:7,text.0:8,release.0:8,hex.0:8,octal.0:8,uni.0:8,H_esc_literal.0:8,lex_hex_escape_char.0:6,lex_octal_escape_char.0:6,lex_unicode_char.0:10 tier=thorough
//@job L04 func=H_esc_literal unwind=6 defs=N=7,PRE=1,VP_STRCAP=14,VP_STRSTEP us=literal.0:11,literal.1:7,text.0:9,release.0:9,hex.0:9,octal.0:9,uni.0:9,H_esc_literal.0:9,lex_hex_escape_char.0:7,lex_octal_escape_char.0:6,lex_unicode_char.0:10 tier=thorough
//@job L04 func=H_esc_literal unwind=6 defs=N=7,PRE=2,VP_STRCAP=14,VP_STRSTEP us=literal.0:11,literal.1:7,text.0:9,release.0:9,hex.0:9,octal.0:9,uni.0:9,H_esc_literal.0:9,lex_hex_escape_char.0:7,lex_octal_escape_char.0:6,lex_unicode_char.0:10 tier=thorough
//@job L04 func=H_esc_literal unwind=7 defs=N=8,PRE=3,VP_STRCAP=14,VP_STRSTEP us=literal.0:11,literal.1:8,text.0:10,release.0:10,hex.0:10,octal.0:10,uni.0:10,H_esc_literal.0:10,lex_hex_escape_char.0:8,lex_octal_escape_char.0:6,lex_unicode_char.0:10 tier=thorough
void H_esc_literal(void){
	text();
#ifdef GO
	bool const go = true;
#else
	bool const go = false;
#endif
	struct HarbolString s = vp_str_ready(); char const *p = NULL; size_t e = 0;
	int const want = literal(go && O[0]=='`', &e);
	int const r = go? lex_go_style_str(T, &p, &s) : lex_c_style_str(T, &p, &s);
	if( want==Good ) vp_assert(r==HarbolLexNoErr, "well-formed literal accepted");
	if( want==Open ) vp_assert(r==HarbolLexSuddenEoFStr || r==HarbolLexBadOctalChar, "unterminated literal reported");
	if( want==Hex ) vp_assert(r==HarbolLexBadHexChar, "bad hexadecimal escape reported");
	if( want==Octal ) vp_assert(r==HarbolLexBadOctalChar, "bad octal escape reported");
	if( want==Uni ) vp_assert(r==HarbolLexBadUnicodeChar, "bad Unicode escape reported");
	vp_assert(p>=T && p<=T+N, "stays in the text");
	if( want==Good ) {
		vp_assert(p==T+e, "ends behind the closing quote");
		vp_assert(s.len==xn, "length of the decoded text");
		for( size_t i=0;i<N+1;i++ ) if( i<xn ) vp_assert(s.cstr[i]==X[i], "decoded text");
	}
	harbol_string_clear(&s);
	release();
}
//@job L04 func=H_esc_errtext unwind=3
void H_esc_errtext(void){
	int const e = (int)vp_u64();
	char const *m = lex_get_err((enum HarbolLexErrType)e);
	vp_assert(m != NULL && m[0] != 0, "every error has a message");
	if( e<0 || e>HarbolLexDigitSepNotSepDigits ) vp_assert(m[0]=='U' && m[2]=='k', "unknown errors are told apart");
	vp_reach("end");
}
