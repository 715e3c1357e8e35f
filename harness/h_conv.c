// Digit strings of up to D digits over an arbitrary set of up to K numerals.
//@src lex/lex.c str/str.c
//@rt vp_libc.c
#include "vp.h"
#include <ctype.h>
#include "str/str.h"
#include "lex/lex.h"
#ifndef D
#define D 4
#endif
#ifndef K
#define K 10
#endif
static char *s, *ns; static int32_t *u, *nu;
static size_t n, kn; static uint8_t base; static bool neg;
/* exactly fitting copies as bytes and as code points */
static void setup(void){
	n = vp_range(0, D); kn = vp_range(1, K);
	base = (uint8_t)vp_range(2, 16);
	s = vp_malloc(D+1); ns = vp_malloc(K+1); u = vp_malloc((D+1)*sizeof *u); nu = vp_malloc((K+1)*sizeof *nu);
	for( size_t i=0;i<K;i++ ) { char const c = (char)vp_u8(); vp_assume(c>0 && c != '-'); ns[i] = i<kn? c : 0; nu[i] = ns[i]; }
	for( size_t i=0;i<D;i++ ) { char const c = (char)vp_u8(); vp_assume(c>0); s[i] = i<n? c : 0; u[i] = s[i]; }
	s[D] = 0; u[D] = 0; ns[K] = 0; nu[K] = 0;
}
/* the value, -1 when a digit is not in the set */
static int64_t value(size_t from){
	int64_t v = 0;
	for( size_t i=from;i<D;i++ ) if( i<n ) {
		size_t at = K;
		for( size_t k=K; k-->0; ) if( k<kn && ns[k]==s[i] ) at = k;
		if( at==K ) return -1;
		v = v*base + (int64_t)at;
	}
	return v;
}
static void done(void){
	free(s); free(ns); free(u); free(nu);
	vp_assert(vp_live==0, "released");
	vp_reach("end");
}
//@job L05 func=H_conv unwind=12 defs=RUNES=0
//@job L05 func=H_conv unwind=12 defs=RUNES=1
//@job L05 func=H_conv unwind=19 defs=RUNES=0,D=5,K=16 tier=thorough
//@job L05 func=H_conv unwind=19 defs=RUNES=1,D=5,K=16 tier=thorough
void H_conv(void){
	setup();
	neg = n>0 && s[0]=='-';
	for( size_t i=1;i<D;i++ ) vp_assume(s[i] != '-');
	int64_t const v = value(0), w = value(neg? 1 : 0);
	bool a = vp_bool(), b = vp_bool();
#if RUNES
	uintmax_t const x = convert_runes_to_base_uint(u, base, nu, &a);
	intmax_t const y = convert_runes_to_base_int(u, base, nu, &b);
#else
	uintmax_t const x = convert_cstr_to_base_uint(s, base, ns, &a);
	intmax_t const y = convert_cstr_to_base_int(s, base, ns, &b);
#endif
	vp_assert(a==(v>=0), "digits outside of the set are reported");
	if( v>=0 ) vp_assert(x==(uintmax_t)v, "unsigned value");
	vp_assert(b==(w>=0), "digits outside of the set are reported, a leading minus is none");
	if( w>=0 ) vp_assert(y==(neg? -w : w), "signed value");
	for( size_t i=0;i<D;i++ ) vp_assert(u[i]==s[i], "digits unchanged");
	done();
}

/* number texts with base prefixes, as the number scanners collect them: the whole digits are converted, the end is reported */
#ifndef LD
#define LD 3
#endif
//@job L05 func=H_prefixed engine=sx
//@job L05 func=H_prefixed engine=sx defs=GO
//@job L05 func=H_prefixed engine=sx defs=LD=18
//@job L05 func=H_prefixed engine=sx defs=LD=18,GO
void H_prefixed(void){
	/* 0 decimal, 1 hexadecimal, 2 binary, 3 octal with a zero, 4 octal with 0o */
#ifdef GO
	size_t const kind = vp_pick(0, 4);
#else
	size_t const kind = vp_pick(0, 3);
#endif
	static char const *const P[] = {"","0x","0b","0","0o"}, *const Q[] = {"","0X","0B","0","0O"};
	static uint8_t const B[] = {10,16,2,8,8};
	char t[LD+6]; size_t n = 0, from; bool const minus = vp_bool() && (kind==0 || kind==1 || kind==3);
	if( minus ) t[n++] = '-';
	char const *const pre = vp_bool()? Q[kind] : P[kind];
	for( size_t i=0;pre[i];i++ ) t[n++] = pre[i];
	from = n;
	/* few digits that are arbitrary, or many of them that are */
	size_t const digits = LD>6? LD : vp_pick(1, LD);
	uintmax_t v = 0; bool over = false;
	for( size_t i=0;i<digits;i++ ) {
		uint8_t d;
		if( LD>6 ) { static uint8_t lead; if( i==0 ) { lead = (uint8_t)vp_pick(0, 15); vp_assume(lead<B[kind]); } d = i==0 || i+1<digits? lead : (uint8_t)vp_pick(0, 1); }
		else { d = (uint8_t)vp_pick(0, 15); vp_assume(d<B[kind]); }
		if( kind==0 && i==0 ) vp_assume(d != 0);
		if( v>(UINTMAX_MAX-d)/B[kind] ) over = true;
		v = v*B[kind] + d;
		t[n++] = (char)(d<10? '0'+d : (i & 1? 'A' : 'a')+d-10);
	}
	if( LD>6 ) vp_assume(!over && v<=INTMAX_MAX);
	char const stop = (char)vp_u8(); vp_assume(!isalnum((unsigned char)stop));
	t[n] = stop; t[n+1] = 0;
	bool r; struct HarbolString s = harbol_string_make(t, &r); vp_assume(r);
	char *e = NULL, *f = NULL;
#ifdef GO
	intmax_t const x = lex_go_string_to_int(&s, &e); uintmax_t const y = lex_go_string_to_uint(&s, &f);
#else
	intmax_t const x = lex_c_string_to_int(&s, &e); uintmax_t const y = lex_c_string_to_uint(&s, &f);
#endif
	vp_assert(x==(minus? -(intmax_t)v : (intmax_t)v), "signed value");
	vp_assert(y==(minus? 0-v : v), "unsigned value");
	vp_assert(e==s.cstr+n && f==s.cstr+n, "ends behind the digits");
	(void)from;
	harbol_string_clear(&s);
	vp_assert(vp_live==0, "nothing is left");
	vp_reach("end");
}
