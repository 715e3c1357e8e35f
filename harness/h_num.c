// Number scanners: a text of N bytes starting with a digit or a dot (fixed beginning PRE), and its terminator.
//@src lex/lex.c
//@rt vp_libc.c
#include "vp.h"
#include <ctype.h>
#include "vp_str.h"
#include "lex/lex.h"
#ifndef N
#define N 4
#endif
#ifndef PRE
#define PRE 0
#endif
#ifdef GO
#define SEP '_'
#else
#define SEP '\''
#endif
static char const *const pre[] = {"", "0x", "0b", "0", ".", "0o", "0X1.", "0x1p", "1e", "0x1", "1."};
static char *T, O[N+2];
static bool isd(char c, int base){
	if( base==16 ) return (c>='0' && c<='9') || (c>='a' && c<='f') || (c>='A' && c<='F');
	return c>='0' && c<'0'+base;
}
static char low(char c){ return c>='A' && c<='Z'? (char)(c+32) : c; }
static bool al(char c){ return (c>='0' && c<='9') || (low(c)>='a' && low(c)<='z'); }
static void text(void){
	T = vp_malloc(N+1); bool fix = PRE<11;
	for( size_t i=0;i<N;i++ ) {
		if( fix && pre[PRE][i]==0 ) fix = false;
		T[i] = O[i] = fix? pre[PRE][i] : (char)vp_u8();
		vp_assume(T[i] != 0);
	}
	T[N] = O[N] = O[N+1] = 0;
	if( PRE==0 ) vp_assume(isd(O[0],10) || O[0]=='.');
	if( PRE==3 ) vp_assume(low(O[1]) != 'x' && low(O[1]) != 'b' && low(O[1]) != 'o');
}
/* end of the digits, single separators between them, that start at i; i when there are none */
static size_t digs(size_t i, int base){
	if( !isd(O[i], base) ) return i;
	i++;
	for( size_t k=0;k<N;k++ ) if( i<N ) {
		if( isd(O[i], base) ) i++;
		else if( O[i]==SEP && isd(O[i+1], base) ) i += 2;
	}
	return i;
}
static size_t suffix(size_t i){
#ifndef GO
	bool const u0 = low(O[i])=='u';
	if( u0 ) i++;
	if( low(O[i])=='l' ) { i++; if( low(O[i])=='l' ) i++; }
	if( !u0 && low(O[i])=='u' ) i++;
#endif
	return i;
}
/* the well-formed literal at the beginning of the text, 0 if there is none */
static size_t wellformed(bool *flt){
	size_t i = 0, j;
	*flt = false;
	char const c = low(O[1]); bool const zero = O[0]=='0';
	if( zero && c=='x' ) {
#ifdef GO
		if( O[2]==SEP && !isd(O[3],16) ) return 0;
		i = O[2]==SEP? 3 : 2;
#else
		i = 2;
#endif
		j = digs(i, 16);
		bool const before = j>i;
#ifndef GO
		if( !before ) return 0;
#endif
		bool after = false;
		if( O[j]=='.' ) { if( O[2]==SEP && !before ) return 0; size_t const k = digs(j+1, 16); after = k>j+1; j = k; if( low(O[j]) != 'p' ) return 0; }
		if( !before && !after ) return 0;
		if( low(O[j])=='p' ) {
			*flt = true; j++;
			if( O[j]=='+' || O[j]=='-' ) j++;
			size_t const k = digs(j, 10);
			if( k==j ) return 0;
			j = k;
#ifndef GO
			if( low(O[j])=='f' || low(O[j])=='l' ) j++;
#endif
			return j;
		}
		return suffix(j);
	}
	if( zero && c=='b' ) { i = 2;
#ifdef GO
		if( O[2]==SEP ) i = 3;
#endif
		j = digs(i, 2); return j==i? 0 : suffix(j); }
#ifdef GO
	if( zero && c=='o' ) { i = O[2]==SEP? 3 : 2; j = digs(i, 8); return j==i? 0 : j; }
	j = digs(0, 10);
#else
	bool const oct = zero && c>='1' && c<='9';	/* a number of two leading zeros is read as decimal */
	j = digs(0, oct? 8 : 10);
	if( oct && O[j] != '.' ) return suffix(j);
#endif
	bool const before = j>0;
	if( O[j]=='.' ) {
		*flt = true;
		size_t const k = digs(j+1, 10);
		if( !before && k==j+1 ) return 0;
		j = k;
	}
	if( j==0 ) return 0;
	if( low(O[j])=='e' ) {
		*flt = true; j++;
		if( O[j]=='+' || O[j]=='-' ) j++;
		size_t const k = digs(j, 10);
		if( k==j ) return 0;
		j = k;
	}
	if( !*flt ) return suffix(j);
#ifndef GO
	if( low(O[j])=='f' || low(O[j])=='l' ) j++;
#endif
	return j;
}
/* what must hold of everything that is taken for a number: text up to e */
static void sound(size_t e, bool flt){
	bool const zero = O[0]=='0';
	bool const hex = zero && low(O[1])=='x', bin = zero && low(O[1])=='b';
#ifdef GO
	bool const oct = zero && low(O[1])=='o';
	size_t const from = hex||bin||oct? 2 : 0;
#else
	bool octal = zero && O[1]>='1' && O[1]<='9';
	for( size_t i=0;i<N;i++ ) if( i<e && O[i]=='.' ) octal = false;
	bool const oct = octal;
	size_t const from = hex||bin? 2 : 0;
#endif
	int const base = hex? 16 : bin? 2 : oct? 8 : 10;
	char const mark = hex? 'p' : bin||oct? '\1' : 'e';
	bool dot = false, ex = false; size_t us = 0, ls = 0, fs = 0;
	for( size_t i=0;i<N;i++ ) if( i>=from && i<e ) {
		char const c = O[i], q = i>from? O[i-1] : 0, d = O[i+1];
		bool const suf = us+ls+fs > 0;
		if( c==SEP ) {
			vp_assert(q != SEP && i+1<e, "separators are neither doubled nor last");
			vp_assert(q != '.' && d != '.' && low(q) != mark && low(d) != mark && q != '+' && q != '-', "separators stand between digits");
			vp_assert(!suf, "no separator behind a suffix");
		} else if( c=='.' ) {
			vp_assert(!bin && !oct && !dot && !ex && !suf, "one dot, before exponent and suffix");
			dot = true;
		} else if( low(c)==mark ) {
			vp_assert(!ex && !suf, "one exponent");
			ex = true;
			vp_assert(i+1<e && (isd(d,10) || ((d=='+' || d=='-') && i+2<e && isd(O[i+2],10))), "exponent has digits");
		} else if( c=='+' || c=='-' ) {
			vp_assert(low(q)==mark, "a sign belongs to an exponent");
		} else if( isd(c, ex? 10 : base) ) {
			vp_assert(!suf, "no digits behind a suffix");
		} else {
#ifdef GO
			vp_assert(false, "nothing but digits, separators, dot and exponent");
#else
			if( low(c)=='u' ) { vp_assert(us==0 && !dot && !ex, "one U, on integers"); us++; vp_assert(!(ls==1 && low(d)=='l' && i+1<e), "no U between the L"); }
			else if( low(c)=='l' ) { ls++; vp_assert(dot||ex? ls+fs==1 : ls<=2, "at most two L, one on floats"); }
			else { vp_assert(low(c)=='f' && (dot||ex) && ls+fs==0, "nothing but digits, separators, dot, exponent and suffixes"); fs++; }
#endif
		}
	}
	if( hex && dot ) vp_assert(ex, "hexadecimal floats have an exponent");
#ifndef GO
	if( hex ) vp_assert(e>2 && O[2] != '.' && low(O[2]) != 'p', "hexadecimal digits are there");
#endif
	vp_assert(flt==(dot||ex), "told apart from integers");
}
//@job L02 func=H_num unwind=5 defs=N=4,PRE=0,VP_STRSTEP,VP_STRCAP=7 us=text.0:7,digs.0:7,sound.0:7,sound.1:7,H_num.0:7,H_num.1:7
//@job L02 func=H_num unwind=5 defs=N=4,PRE=0,GO,VP_STRSTEP,VP_STRCAP=7 us=text.0:7,digs.0:7,sound.0:7,sound.1:7,H_num.0:7,H_num.1:7
//@job L02 func=H_num unwind=2 defs=N=1,PRE=0,VP_STRSTEP,VP_STRCAP=4 us=text.0:4,digs.0:4,sound.0:4,sound.1:4,H_num.0:4,H_num.1:4
//@job L02 func=H_num unwind=2 defs=N=1,PRE=0,GO,VP_STRSTEP,VP_STRCAP=4 us=text.0:4,digs.0:4,sound.0:4,sound.1:4,H_num.0:4,H_num.1:4
//@job L02 func=H_num unwind=7 defs=N=6,PRE=1,VP_STRSTEP,VP_STRCAP=9 us=text.0:9,digs.0:9,sound.0:9,sound.1:9,H_num.0:9,H_num.1:9
//@job L02 func=H_num unwind=7 defs=N=6,PRE=1,GO,VP_STRSTEP,VP_STRCAP=9 us=text.0:9,digs.0:9,sound.0:9,sound.1:9,H_num.0:9,H_num.1:9
//@job L02 func=H_num unwind=7 defs=N=6,PRE=2,VP_STRSTEP,VP_STRCAP=9 us=text.0:9,digs.0:9,sound.0:9,sound.1:9,H_num.0:9,H_num.1:9
//@job L02 func=H_num unwind=7 defs=N=6,PRE=2,GO,VP_STRSTEP,VP_STRCAP=9 us=text.0:9,digs.0:9,sound.0:9,sound.1:9,H_num.0:9,H_num.1:9
//@job L02 func=H_num unwind=6 defs=N=5,PRE=3,VP_STRSTEP,VP_STRCAP=8 us=text.0:8,digs.0:8,sound.0:8,sound.1:8,H_num.0:8,H_num.1:8
//@job L02 func=H_num unwind=7 defs=N=6,PRE=5,GO,VP_STRSTEP,VP_STRCAP=9 us=text.0:9,digs.0:9,sound.0:9,sound.1:9,H_num.0:9,H_num.1:9
//@job L02 func=H_num unwind=5 defs=N=4,PRE=4,VP_STRSTEP,VP_STRCAP=7 us=text.0:7,digs.0:7,sound.0:7,sound.1:7,H_num.0:7,H_num.1:7
//@job L02 func=H_num unwind=5 defs=N=4,PRE=4,GO,VP_STRSTEP,VP_STRCAP=7 us=text.0:7,digs.0:7,sound.0:7,sound.1:7,H_num.0:7,H_num.1:7
//@job L02 func=H_num unwind=8 defs=N=7,PRE=6,VP_STRSTEP,VP_STRCAP=10 us=text.0:10,digs.0:10,sound.0:10,sound.1:10,H_num.0:10,H_num.1:10
//@job L02 func=H_num unwind=8 defs=N=7,PRE=6,GO,VP_STRSTEP,VP_STRCAP=10 us=text.0:10,digs.0:10,sound.0:10,sound.1:10,H_num.0:10,H_num.1:10
//@job L02 func=H_num unwind=8 defs=N=7,PRE=7,VP_STRSTEP,VP_STRCAP=10 us=text.0:10,digs.0:10,sound.0:10,sound.1:10,H_num.0:10,H_num.1:10
//@job L02 func=H_num unwind=8 defs=N=7,PRE=7,GO,VP_STRSTEP,VP_STRCAP=10 us=text.0:10,digs.0:10,sound.0:10,sound.1:10,H_num.0:10,H_num.1:10
//@job L02 func=H_num unwind=7 defs=N=6,PRE=8,VP_STRSTEP,VP_STRCAP=9 us=text.0:9,digs.0:9,sound.0:9,sound.1:9,H_num.0:9,H_num.1:9
//@job L02 func=H_num unwind=7 defs=N=6,PRE=8,GO,VP_STRSTEP,VP_STRCAP=9 us=text.0:9,digs.0:9,sound.0:9,sound.1:9,H_num.0:9,H_num.1:9
//@job L02 func=H_num unwind=8 defs=N=7,PRE=9,VP_STRSTEP,VP_STRCAP=10 us=text.0:10,digs.0:10,sound.0:10,sound.1:10,H_num.0:10,H_num.1:10
//@job L02 func=H_num unwind=7 defs=N=6,PRE=10,VP_STRSTEP,VP_STRCAP=9 us=text.0:9,digs.0:9,sound.0:9,sound.1:9,H_num.0:9,H_num.1:9
//@job L02 func=H_num unwind=7 defs=N=6,PRE=10,GO,VP_STRSTEP,VP_STRCAP=9 us=text.0:9,digs.0:9,sound.0:9,sound.1:9,H_num.0:9,H_num.1:9
//@job L02 func=H_num unwind=7 defs=N=6,PRE=0,VP_STRSTEP,VP_STRCAP=9 us=text.0:9,digs.0:9,sound.0:9,sound.1:9,H_num.0:9,H_num.1:9 tier=thorough
//@job L02 func=H_num unwind=7 defs=N=6,PRE=0,GO,VP_STRSTEP,VP_STRCAP=9 us=text.0:9,digs.0:9,sound.0:9,sound.1:9,H_num.0:9,H_num.1:9 tier=thorough
//@job L02 func=H_num unwind=9 defs=N=8,PRE=1,VP_STRSTEP,VP_STRCAP=11 us=text.0:11,digs.0:11,sound.0:11,sound.1:11,H_num.0:11,H_num.1:11 tier=thorough
//@job L02 func=H_num unwind=9 defs=N=8,PRE=1,GO,VP_STRSTEP,VP_STRCAP=11 us=text.0:11,digs.0:11,sound.0:11,sound.1:11,H_num.0:11,H_num.1:11 tier=thorough
//@job L02 func=H_num unwind=9 defs=N=8,PRE=2,VP_STRSTEP,VP_STRCAP=11 us=text.0:11,digs.0:11,sound.0:11,sound.1:11,H_num.0:11,H_num.1:11 tier=thorough
//@job L02 func=H_num unwind=8 defs=N=7,PRE=3,VP_STRSTEP,VP_STRCAP=10 us=text.0:10,digs.0:10,sound.0:10,sound.1:10,H_num.0:10,H_num.1:10 tier=thorough
//@job L02 func=H_num unwind=9 defs=N=8,PRE=5,GO,VP_STRSTEP,VP_STRCAP=11 us=text.0:11,digs.0:11,sound.0:11,sound.1:11,H_num.0:11,H_num.1:11 tier=thorough
void H_num(void){
	text();
	bool flt = false, rf = false; size_t const w = wellformed(&rf);
	struct HarbolString s = vp_str_ready(); char const *p = NULL;
#ifdef GO
	int const r = lex_go_style_number(T, &p, &s, &flt);
#else
	int const r = lex_c_style_number(T, &p, &s, &flt);
#endif
	vp_assert(p>=T && p<=T+N, "stays in the text");
	size_t const e = (size_t)(p-T);
	char const c = O[w];
	bool const more = al(c) || c=='.' || c==SEP
#ifndef GO
		|| ((c=='+' || c=='-') && low(O[1])=='x' && !rf)
#endif
	;
	if( w>0 && !more ) {
		vp_assert(r==HarbolLexNoErr, "well-formed number accepted");
		vp_assert(e==w, "ends behind the number");
		vp_assert(flt==rf, "told apart from integers");
	}
	if( r==HarbolLexNoErr ) {
		vp_assert(e>0, "something is taken");
		sound(e, flt);
		vp_assert(s.len==e, "length of the collected text");
		for( size_t i=0;i<N;i++ ) if( i<e ) vp_assert(s.cstr[i]==O[i], "collected text");
	}
	for( size_t i=0;i<=N;i++ ) vp_assert(T[i]==O[i], "the text is not changed");
	free(T); harbol_string_clear(&s);
	vp_assert(vp_live==0, "released");
	vp_reach("end");
}
/* every scanner on any text: stays inside of it, refuses what does not start with its prefix */
//@job L02 func=H_num_direct unwind=5 defs=N=3,PRE=99,VP_STRSTEP,VP_STRCAP=7 us=H_num_direct.2:10,H_num_direct.1:10,H_num_direct.0:10
//@job L02 func=H_num_direct unwind=5 defs=N=2,PRE=99,VP_STRSTEP,VP_STRCAP=7 us=H_num_direct.2:10,H_num_direct.1:10,H_num_direct.0:10
//@job L02 func=H_num_direct unwind=5 defs=N=1,PRE=99,VP_STRSTEP,VP_STRCAP=7 us=H_num_direct.2:10,H_num_direct.1:10,H_num_direct.0:10
//@job L02 func=H_num_direct unwind=5 defs=N=0,PRE=99,VP_STRSTEP,VP_STRCAP=7 us=H_num_direct.2:10,H_num_direct.1:10,H_num_direct.0:10
#if PRE==99
static void one(int k){
	bool flt = false; int r; char const *p = T;
	struct HarbolString s = vp_str_ready();
	char const *const mark = "xxxobb";
	switch( k ) {
		case 0: r = lex_c_style_hex(T, &p, &s, &flt); break;
		case 1: r = lex_go_style_hex(T, &p, &s, &flt); break;
		case 2: r = lex_c_style_octal(T, &p, &s, &flt); break;
		case 3: r = lex_go_style_octal(T, &p, &s); break;
		case 4: r = lex_c_style_binary(T, &p, &s); break;
		case 5: r = lex_go_style_binary(T, &p, &s); break;
		case 6: r = lex_c_style_decimal(T, &p, &s, &flt); break;
		default: r = lex_go_style_decimal(T, &p, &s, &flt); break;
	}
	vp_assert(p>=T && p<=T+N, "stays in the text");
	if( N==0 ) vp_assert(r==HarbolLexEoF, "the empty text is no number");
	else if( k<6 ) {
		if( O[0] != '0' ) vp_assert(r==HarbolLexMissing0, "missing zero is reported");
		else if( k != 2 && low(O[1]) != mark[k] ) vp_assert(r==(k<2? HarbolLexMissingX : k==3? HarbolLexMissingO : HarbolLexMissingB), "missing base is reported");
	}
	if( r==HarbolLexNoErr ) {
		vp_assert(s.len==(size_t)(p-T), "length of the collected text");
		for( size_t i=0;i<N;i++ ) if( i<s.len ) vp_assert(s.cstr[i]==O[i], "collected text");
	}
	harbol_string_clear(&s);
}
void H_num_direct(void){
	T = vp_malloc(N+1);
	for( size_t i=0;i<N;i++ ) { T[i] = O[i] = (char)vp_u8(); vp_assume(T[i] != 0); }
	T[N] = 0;
	size_t const k = vp_range(0,7);
	for( int i=0;i<8;i++ ) if( k==(size_t)i ) {
		one(i);
		for( size_t q=0;q<=N;q++ ) vp_assert(T[q]==O[q], "the text is not changed");
		free(T);
		vp_assert(vp_live==0, "released");
		vp_reach("end");
		return;
	}
}
#endif
