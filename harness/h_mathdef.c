// The predefined names of math expressions: constants and functions, alone and in expressions.
//@src math/math_parser.c
#include "vp.h"
#include <math.h>
#include "math/math_parser.h"
static char const *const FN[] = {"sin","cos","tan","arcsin","arccos","arctan","ln","log","floor","ceil","round","fraction","radians","degrees"};
#define NF (sizeof FN/sizeof FN[0])
static long double const PI = 3.14159265358979323846264338327950288L, E1 = 2.718281828459045235360287471352662498L;
static floatmax_t apply(size_t f, floatmax_t x){
	switch( f ) {
	case 0: return sin(x); case 1: return cos(x); case 2: return tan(x); case 3: return asin(x); case 4: return acos(x); case 5: return atan(x);
	case 6: return log(x); case 7: return log10(x); case 8: return floor(x); case 9: return ceil(x); case 10: return round(x); case 11: return x - floor(x);
	case 12: return x * (PI / 180.0L); default: return x * (180.0L / PI);
	}
}
static size_t known(char const *n){
	for( size_t f=0;f<NF;f++ ) if( !strcmp(n, FN[f]) ) return f;
	return !strcmp(n, "e")? 100 : !strcmp(n, "pi")? 101 : 99;
}
static void resolve(char const *n, size_t len){
	floatmax_t const before = vp_float(5); floatmax_t v = before; HarbolMathFunc *fn = NULL; bool is = false;
	harbol_math_default_var_func(n, len, &v, &fn, NULL, 0, &is);
	size_t const k = known(n);
	if( k<NF ) {
		vp_assert(is && fn != NULL && vp_feq(v, before), "a function's name gives a function");
		vp_assert(vp_feq((*fn)(vp_float(1)), apply(k, vp_float(1))), "the function of that name");
		vp_reach("function");
	} else {
		vp_assert(!is && fn==NULL, "other names give no function");
		vp_assert(vp_feq(v, k==100? E1 : k==101? PI : before), "the constant of that name, or nothing");
		vp_reach("no function");
	}
}
/* every name of up to N letters or digits */
#ifndef N
#define N 4
#endif
//@job M03 engine=sx func=H_def_any defs=N=9 steps=200000000
void H_def_any(void){
	static char T[N+1];
	size_t const n = vp_pick(1, N);
	for( size_t i=0;i<n;i++ ) { T[i] = (char)vp_u8(); vp_assume(isalnum((unsigned char)T[i])); }
	T[n] = 0;
	resolve(T, n);
}
/* the predefined names, whole, cut short, longer, or with one arbitrary character changed */
//@job M03 engine=sx func=H_def_near
void H_def_near(void){
	static char T[16];
	static char const *const more[] = {"e","pi"};
	size_t const f = vp_pick(0, NF+1);
	strcpy(T, f<NF? FN[f] : more[f-NF]);
	size_t n = strlen(T);
	switch( vp_pick(0, 3) ) {
	case 1: vp_assume(n>1); T[--n] = 0; break;
	case 2: T[n] = (char)vp_u8(); vp_assume(isalnum((unsigned char)T[n])); T[++n] = 0; break;
	case 3: { size_t const at = vp_pick(0, 8); vp_assume(at<n); T[at] = (char)vp_u8(); vp_assume(isalnum((unsigned char)T[at])); break; }
	default: break;
	}
	resolve(T, n);
}
/* in an expression: applied to a bracket, to a name, and to another function */
static floatmax_t arg(void){ return vp_float(3); }
static void vars(char const *name, size_t len, floatmax_t *val, HarbolMathFunc **fn, void *data, size_t dlen, bool *is){
	if( name[0]=='x' && len==1 ) *val = arg(); else harbol_math_default_var_func(name, len, val, fn, data, dlen, is);
}
//@job M03 engine=sx func=H_def_expr
void H_def_expr(void){
	static char T[64];
	size_t const f = vp_pick(0, NF-1), g = vp_pick(0, NF-1);
	floatmax_t want;
	switch( vp_pick(0, 3) ) {
	case 0: strcpy(T, FN[f]); strcat(T, "(x)"); want = apply(f, arg()); break;
	case 1: strcpy(T, FN[f]); strcat(T, " x"); want = apply(f, arg()); break;
	case 2: strcpy(T, FN[f]); strcat(T, "("); strcat(T, FN[g]); strcat(T, "[x])"); want = apply(f, apply(g, arg())); break;
	default: strcpy(T, "x*"); strcat(T, FN[f]); strcat(T, "(x)-pi"); want = arg()*apply(f, arg()) - PI; break;
	}
	vp_assert(vp_feq(harbol_math_parse_expr(T, vars, NULL, 0), want), "the value of the expression");
	vp_reach("evaluated");
}
