// Math expressions: memory safety on any text; value against an independent reading of the grammar.
//@src math/math_parser.c
//@rt
#include "vp.h"
#include "math/math_parser.h"
#ifndef N
#define N 4
#endif
static char T[N+2];
static size_t names;
/* ---- M01 ---- */
static floatmax_t twice(floatmax_t x){ return x+x; }
static void any_var(char const *name, size_t len, floatmax_t *val, HarbolMathFunc **fn, void *data, size_t dlen, bool *is_fn){
	vp_assert(data==T && dlen==7, "resolver gets the caller's data");
	vp_assert(len != 0, "name is not empty");
	size_t k = 0; bool ok = true;
	for( ; name[k] != 0; k++ ) ok &= (isalnum((unsigned char)name[k]) != 0);
	vp_assert(k==len, "name is terminated and as long as told");
	vp_assert(ok, "name is made of letters and digits");
	names++;
	*val = 2;
	if( name[0]=='f' ) { *fn = twice; *is_fn = true; }
}
static void run(char const *t){
	floatmax_t const r = harbol_math_parse_expr(t, any_var, T, 7); (void)r;
	vp_assert(vp_live==0, "nothing is left allocated");
	floatmax_t const q = harbol_math_parse_expr(t, NULL, NULL, 0); (void)q;
	vp_reach("parsed");
}
void H_any(void){
	for( size_t i=0;i<N;i++ ) T[i] = (char)vp_u8();
	T[N] = 0;
	run(T);
}
/* a run of equal characters of any class, with an arbitrary character behind it */
#define LONG 140
static char L[LONG+4];
void H_long(void){
	static char const C[] = "7.aZ ([-^+*/)";
	static uint8_t const K[] = {62,63,64,65,127,128,140};
	char const c = C[vp_pick(0, sizeof C - 2)];
	size_t const k = K[vp_pick(0, sizeof K - 1)];
	size_t n = 0;
	size_t const front = vp_pick(0,2);
	if( front != 0 ) L[n++] = front==1? 'a' : '1';
	for( size_t i=0;i<k;i++ ) L[n++] = c;
	L[n++] = (char)vp_u8();
	L[n] = 0;
	run(L);
}
/* ---- M02 ---- */
/* grammar (math_parser.h): sums of products of powers of signed factors, left to right on every level */
static floatmax_t F(floatmax_t x){ return cosl(x); }
static void var_of(char const *name, size_t len, floatmax_t *val, HarbolMathFunc **fn, void *data, size_t dlen, bool *is_fn){
	(void)data; (void)dlen; (void)len;
	if( name[0]=='f' ) { *fn = F; *is_fn = true; }
	else *val = vp_float((uint64_t)(name[0]-'a'));
}
/* works on token classes: K[i] in "v f + - * / ^ ( )" (brackets by their kind), V[i] the value of an operand */
static char K[N+1]; static floatmax_t V[N+1]; static size_t mate[N+1], nk;
static bool isopen(char c){ return c=='(' || c=='['; }
static floatmax_t ev(int level, size_t lo, size_t hi);
/* tokens lo..hi-1 are a chain of operands and operators; an operator is binary when an operand ends just in front of it */
static bool ends(size_t i){ return K[i]=='v' || K[i]==')' || K[i]==']'; }
static bool binary(size_t i, size_t lo){ return i>lo && ends(i-1); }
static floatmax_t factor(size_t lo, size_t hi){
	if( K[lo]=='-' ) return -factor(lo+1, hi);
	if( K[lo]=='+' ) return fabs(factor(lo+1, hi));
	if( K[lo]=='v' ) { vp_assume(lo+1==hi); return V[lo]; }
	if( K[lo]=='f' ) {
		vp_assume(lo+1<hi);
		return F(isopen(K[lo+1])? factor(lo+1, hi) : ev(2, lo+1, hi));
	}
	vp_assume(isopen(K[lo]) && mate[lo]+1==hi && mate[lo]>lo+1);
	return ev(0, lo+1, hi-1);
}
static floatmax_t ev(int level, size_t lo, size_t hi){
	static char const *const ops[] = {"+-", "*/", "^"};
	vp_assume(lo<hi);
	if( level==3 ) return factor(lo, hi);
	/* split at the last operator of this level outside of brackets; a function without brackets takes powers with it */
	size_t at = hi; bool taken = false;
	for( size_t i=lo; i<hi; i++ ) {
		if( isopen(K[i]) ) { i = mate[i]; if( i>=hi ) break; }
		else if( K[i]=='f' && level==2 && !(i+1<hi && isopen(K[i+1])) ) taken = true;
		else if( binary(i, lo) && (K[i]==ops[level][0] || K[i]==ops[level][1]) && !taken ) at = i;
	}
	if( at==hi ) return ev(level+1, lo, hi);
	floatmax_t const a = ev(level, lo, at), b = ev(level+1, at+1, hi);
	switch( K[at] ) { case '+': return a+b; case '-': return a-b; case '*': return a*b; case '/': return a/b; default: return pow(a, b); }
}
static void brackets(void){
	size_t open[N+1], d = 0;
	for( size_t i=0;i<nk;i++ ) {
		if( isopen(K[i]) ) open[d++] = i;
		else if( K[i]==')' || K[i]==']' ) {
			vp_assume(d>0); d--;
			vp_assume((K[i]==')')==(K[open[d]]=='('));
			mate[open[d]] = i;
		}
	}
	vp_assume(d==0);
	for( size_t i=0;i+1<nk;i++ ) {
		bool const operand = ends(i), next_starts = K[i+1]=='v' || K[i+1]=='f' || isopen(K[i+1]);
		vp_assume(!(operand && next_starts));                                   /* two operands in a row */
		vp_assume(operand || next_starts || K[i+1]=='+' || K[i+1]=='-');        /* an operator or ')' where an operand is due */
	}
	vp_assume(nk>0 && ends(nk-1));
	vp_assume(K[0]=='v' || K[0]=='f' || K[0]=='+' || K[0]=='-' || isopen(K[0]));
}
#ifndef ALPHA
#ifdef SPACES
#define ALPHA "+-*/^()[]f \n\t\r"
#elif defined(SQUARE)
#define ALPHA "-*^[]f"
#else
#define ALPHA "+-*/^()f"
#endif
#endif
/* every text of N characters over variables, signs, operators, brackets and a function */
void H_value(void){
	static char const name[] = "abcdeghijkl";
	static char const A[] = ALPHA;
	for( size_t i=0;i<N;i++ ) {
		T[i] = (char)vp_u8();
		bool in = T[i]==name[i];
		for( size_t k=0;A[k] != 0;k++ ) in |= T[i]==A[k];
		vp_assume(in);
	}
	T[N] = 0; nk = 0;
	for( size_t i=0;i<N;i++ ) {
		if( T[i]==' ' || T[i]=='\n' || T[i]=='\t' || T[i]=='\r' ) continue;
		K[nk] = T[i]==name[i]? 'v' : T[i];
		if( K[nk]=='v' || K[nk]=='f' ) vp_assume(i==0 || T[i-1] != 'f');
		if( K[nk]=='v' ) { V[nk] = vp_float((uint64_t)(name[i]-'a')); }
		nk++;
	}
	brackets();
	floatmax_t const want = ev(0, 0, nk);
	vp_assert(vp_feq(harbol_math_parse_expr(T, var_of, NULL, 0), want), "value is the one of the grammar");
	vp_reach("evaluated");
}
/* literals: digits with one dot anywhere, behind a number of leading digits */
#ifndef LEAD
#define LEAD 0
#endif
void H_literal(void){
	static char S[LEAD+8];
	size_t n = 0, dots = 0;
	for( size_t i=0;i<LEAD;i++ ) S[n++] = '0';
	size_t const dot = vp_pick(0, 4);
	for( size_t i=0;i<3;i++ ) { if( i==dot ) { S[n++] = '.'; dots++; } S[n++] = (char)('0' + vp_range(0, 9)); }
	if( dot==3 ) S[n++] = '.';
	S[n] = 0;
	floatmax_t num = 0, den = 1;
	bool frac = false;
	for( size_t i=0;i<n;i++ ) { if( S[i]=='.' ) { frac = true; continue; } num = num*10 + (S[i]-'0'); if( frac ) den *= 10; }
	vp_assert(vp_feq(harbol_math_parse_expr(S, NULL, NULL, 0), num/den), "literal denotes its digits");
	vp_reach("read");
}
//@job M01 engine=sx func=H_any defs=N=4,VP_OPAQUE_FLOATS=1
//@job M01 engine=sx func=H_any defs=N=5,VP_OPAQUE_FLOATS=1 tier=thorough timeout=800 steps=200000000
//@job M01 engine=sx func=H_long defs=VP_OPAQUE_FLOATS=1
//@job M02 engine=sx func=H_value defs=N=5,SPACES=1
//@job M02 engine=sx func=H_value defs=N=6
//@job M02 engine=sx func=H_value defs=N=9 tier=thorough timeout=800 steps=200000000
//@job M02 engine=sx func=H_value defs=N=8 cost=60
//@job M02 engine=sx func=H_value defs=N=7,SQUARE=1
//@job M02 engine=sx func=H_literal
//@job M02 engine=sx func=H_literal defs=LEAD=70
