/* libc for the path-wise engine: plain C, executed symbolically along with the code under test */
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <stdbool.h>
#include <limits.h>
#include <errno.h>
#define U(p) ((unsigned char const *)(p))
void sx_assert(int, char const *);
size_t strlen(char const *s){ size_t n=0; while( s[n] ) n++; return n; }
size_t strnlen(char const *s, size_t m){ size_t n=0; while( n<m && s[n] ) n++; return n; }
int strcmp(char const *a, char const *b){ size_t i=0; while( a[i] && a[i]==b[i] ) i++; return (int)U(a)[i]-(int)U(b)[i]; }
int strncmp(char const *a, char const *b, size_t n){ for( size_t i=0;i<n;i++ ) { if( a[i]!=b[i] ) return (int)U(a)[i]-(int)U(b)[i]; if( !a[i] ) return 0; } return 0; }
int memcmp(void const *a, void const *b, size_t n){ for( size_t i=0;i<n;i++ ) if( U(a)[i]!=U(b)[i] ) return (int)U(a)[i]-(int)U(b)[i]; return 0; }
void *memchr(void const *a, int c, size_t n){ for( size_t i=0;i<n;i++ ) if( U(a)[i]==(unsigned char)c ) return (void*)(U(a)+i); return NULL; }
char *strchr(char const *s, int c){ for( ;; s++ ) { if( *s==(char)c ) return (char*)s; if( !*s ) return NULL; } }
char *strrchr(char const *s, int c){ char const *r=NULL; for( ;; s++ ) { if( *s==(char)c ) r=s; if( !*s ) return (char*)r; } }
char *strstr(char const *h, char const *n){ for( ;; h++ ) { size_t i=0; while( n[i] && h[i]==n[i] ) i++; if( !n[i] ) return (char*)h; if( !*h ) return NULL; } }
char *strcpy(char *d, char const *s){ size_t i=0; for( ;; i++ ) { d[i]=s[i]; if( !s[i] ) return d; } }
char *strncpy(char *d, char const *s, size_t n){ size_t i=0; for( ; i<n && s[i]; i++ ) d[i]=s[i]; for( ; i<n; i++ ) d[i]=0; return d; }
char *strcat(char *d, char const *s){ strcpy(d+strlen(d), s); return d; }
char *strncat(char *d, char const *s, size_t n){ size_t const l=strlen(d); size_t i=0; for( ; i<n && s[i]; i++ ) d[l+i]=s[i]; d[l+i]=0; return d; }
char *strpbrk(char const *s, char const *a){ for( ; *s; s++ ) for( size_t i=0;a[i];i++ ) if( a[i]==*s ) return (char*)s; return NULL; }
size_t strspn(char const *s, char const *a){ size_t n=0; for( ; s[n]; n++ ) if( !strchr(a, s[n]) ) break; return n; }
size_t strcspn(char const *s, char const *a){ size_t n=0; for( ; s[n]; n++ ) if( strchr(a, s[n]) ) break; return n; }
/* no branches: a character class is one condition */
int isdigit(int c){ return (unsigned)c-'0'<10u; }
int isupper(int c){ return (unsigned)c-'A'<26u; }
int islower(int c){ return (unsigned)c-'a'<26u; }
int isalpha(int c){ return ((unsigned)c|32u)-'a'<26u; }
int isalnum(int c){ return (((unsigned)c|32u)-'a'<26u) | ((unsigned)c-'0'<10u); }
int isxdigit(int c){ return (((unsigned)c|32u)-'a'<6u) | ((unsigned)c-'0'<10u); }
int isspace(int c){ return ((unsigned)c-9u<5u) | (c==' '); }
int isblank(int c){ return (c=='\t') | (c==' '); }
int isprint(int c){ return (unsigned)c-32u<95u; }
int isgraph(int c){ return (unsigned)c-33u<94u; }
int iscntrl(int c){ return ((unsigned)c<32u) | (c==127); }
int ispunct(int c){ return ((unsigned)c-33u<94u) & !isalnum(c); }
int tolower(int c){ return c + (((unsigned)c-'A'<26u)? 32 : 0); }
int toupper(int c){ return c - (((unsigned)c-'a'<26u)? 32 : 0); }
static int errno_here;
int *__errno_location(void){ return &errno_here; }
static unsigned long long conv(char const *s, char **end, int base, bool sgn){
	char const *const s0 = s;
	while( isspace(*s) ) s++;
	bool neg = false;
	if( *s=='-' || *s=='+' ) neg = *s++=='-';
	if( (base==0 || base==16) && s[0]=='0' && (s[1]=='x' || s[1]=='X') && isxdigit(s[2]) ) { s += 2; base = 16; }
	else if( base==0 ) base = *s=='0'? 8 : 10;
	bool any = false, over = false;
	unsigned long long v = 0;
	for( ; isalnum(*s); s++ ) {
		int const d = isdigit(*s)? *s-'0' : (*s|32)-'a'+10;
		if( d >= base ) break;
		any = true;
		if( v > (ULLONG_MAX - (unsigned)d)/(unsigned)base ) over = true;
		v = v*(unsigned)base + (unsigned)d;
	}
	if( end ) *end = (char*)(any? s : s0);
	if( sgn ) {
		if( over || v > (unsigned long long)LLONG_MAX + (neg? 1 : 0) ) { errno_here = ERANGE; return neg? (unsigned long long)LLONG_MIN : LLONG_MAX; }
	} else if( over ) { errno_here = ERANGE; return ULLONG_MAX; }
	return neg? 0-v : v;
}
long long strtoll(char const *s, char **e, int b){ return (long long)conv(s, e, b, true); }
long strtol(char const *s, char **e, int b){ return (long)conv(s, e, b, true); }
unsigned long long strtoull(char const *s, char **e, int b){ return conv(s, e, b, false); }
unsigned long strtoul(char const *s, char **e, int b){ return (unsigned long)conv(s, e, b, false); }
intmax_t strtoimax(char const *s, char **e, int b){ return (intmax_t)conv(s, e, b, true); }
uintmax_t strtoumax(char const *s, char **e, int b){ return conv(s, e, b, false); }
long __isoc23_strtol(char const *s, char **e, int b){ return strtol(s, e, b); }
long long __isoc23_strtoll(char const *s, char **e, int b){ return strtoll(s, e, b); }
unsigned long __isoc23_strtoul(char const *s, char **e, int b){ return strtoul(s, e, b); }
unsigned long long __isoc23_strtoull(char const *s, char **e, int b){ return strtoull(s, e, b); }
intmax_t __isoc23_strtoimax(char const *s, char **e, int b){ return strtoimax(s, e, b); }
uintmax_t __isoc23_strtoumax(char const *s, char **e, int b){ return strtoumax(s, e, b); }
int atoi(char const *s){ return (int)conv(s, NULL, 10, true); }
int abs(int x){ return x<0? -x : x; }
int vsnprintf(char *buf, size_t n, char const *fmt, va_list ap){
	size_t k = 0;
#define OUT(ch) do{ char const c_ = (ch); if( n != 0 && k+1 < n ) buf[k] = c_; k++; }while(0)
	for( size_t i=0; fmt[i] != 0; i++ ) {
		if( fmt[i] != '%' ) { OUT(fmt[i]); continue; }
		i++;
		int l = 0; size_t prec = SIZE_MAX, width = 0; bool zero = false;
		if( fmt[i]=='0' ) { zero = true; i++; }
		while( isdigit(fmt[i]) ) { width = width*10 + (size_t)(fmt[i]-'0'); i++; }
		if( fmt[i]=='.' ) { i++; if( fmt[i]=='*' ) { prec = (size_t)va_arg(ap, int); i++; } else { prec = 0; while( isdigit(fmt[i]) ) { prec = prec*10 + (size_t)(fmt[i]-'0'); i++; } } }
		while( fmt[i]=='l' || fmt[i]=='z' || fmt[i]=='j' || fmt[i]=='t' ) { l++; i++; }
		while( fmt[i]=='h' || fmt[i]=='L' ) i++;
		switch( fmt[i] ) {
		case 's': { char const *s = va_arg(ap, char const *); if( s==NULL ) s = "(null)"; for( size_t j=0; j<prec && s[j] != 0; j++ ) OUT(s[j]); break; }
		case 'c': OUT((char)va_arg(ap, int)); break;
		case '%': OUT('%'); break;
#ifdef VP_OPAQUE_FLOATS
		/* some digits: the text of an unknown number is not modelled */
		case 'f': if( fmt[i-1]=='L' ) (void)va_arg(ap, long double); else (void)va_arg(ap, double); OUT('7'); OUT('.'); OUT('5'); break;
#endif
		case 'd': case 'i': case 'u': case 'x': case 'X': case 'p': {
			bool const sg = fmt[i]=='d' || fmt[i]=='i'; unsigned const base = sg || fmt[i]=='u'? 10 : 16;
			uint64_t v; bool neg = false;
			if( l || fmt[i]=='p' ) v = va_arg(ap, uint64_t); else if( sg ) v = (uint64_t)(int64_t)va_arg(ap, int); else v = va_arg(ap, unsigned);
			if( sg && (int64_t)v<0 ) { neg = true; v = 0-v; }
			char t[24]; size_t m = 0;
			if( fmt[i]=='p' ) { OUT('0'); OUT('x'); }
			do { t[m++] = (fmt[i]=='X'? "0123456789ABCDEF" : "0123456789abcdef")[v%base]; v /= base; } while( v );
			if( neg ) OUT('-');
			for( size_t p=m+(neg? 1 : 0); p<width; p++ ) OUT(zero? '0' : ' ');
			while( m ) OUT(t[--m]);
			break; }
		default: sx_assert(0, "format within the printf model");
		}
	}
	if( n != 0 ) buf[k < n? k : n-1] = 0;
	return (int)k;
}
int snprintf(char *b, size_t n, char const *f, ...){ va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sprintf(char *b, char const *f, ...){ va_list ap; va_start(ap, f); int r = vsnprintf(b, (size_t)1<<30, f, ap); va_end(ap); return r; }
#ifdef VP_OPAQUE_FLOATS
/* text to floating point: the extent is decided here, the value is an unknown */
long double sx_float(uint64_t);
static uint64_t floats_read = 1000;
static int word(char const *s, char const *w){ int i=0; for( ; w[i]; i++ ) if( (s[i]|32)!=w[i] ) return 0; return i; }
long double strtold(char const *s, char **e){
	size_t i = 0, n = 0, m;
	while( isspace(s[i]) ) i++;
	if( s[i]=='+' || s[i]=='-' ) i++;
	if( (m = word(s+i, "inf")) != 0 ) { i += m; i += word(s+i, "inity"); n = 1; }
	else if( (m = word(s+i, "nan")) != 0 ) { i += m; n = 1; }
	else {
		bool const hex = s[i]=='0' && (s[i+1]|32)=='x' && (isxdigit(s[i+2]) || (s[i+2]=='.' && isxdigit(s[i+3])));
		if( hex ) i += 2;
		while( hex? isxdigit(s[i]) : isdigit(s[i]) ) { i++; n++; }
		if( s[i]=='.' && (n>0 || (hex? isxdigit(s[i+1]) : isdigit(s[i+1]))) ) { i++; while( hex? isxdigit(s[i]) : isdigit(s[i]) ) { i++; n++; } }
		if( n>0 && (s[i]|32)==(hex? 'p' : 'e') ) {
			size_t const k = s[i+1]=='+' || s[i+1]=='-'? 2 : 1;
			if( isdigit(s[i+k]) ) { i += k; while( isdigit(s[i]) ) i++; }
		}
	}
	if( e ) *e = (char*)(n>0? s+i : s);
	return n>0? sx_float(floats_read++) : 0;
}
double strtod(char const *s, char **e){ return (double)strtold(s, e); }
#endif
void *stderr, *stdout, *stdin;
/* nothing is printed, but every argument is read */
int vfprintf(void *f, char const *fmt, va_list ap){
	(void)f;
	for( size_t i=0; fmt[i] != 0; i++ ) {
		if( fmt[i] != '%' ) continue;
		int l = 0;
		for( i++; isdigit(fmt[i]) || fmt[i]=='.' || fmt[i]=='-' || fmt[i]=='h'; i++ ) {}
		while( fmt[i]=='l' || fmt[i]=='z' || fmt[i]=='j' || fmt[i]=='t' ) { l++; i++; }
		switch( fmt[i] ) {
		case 's': { char const *s = va_arg(ap, char const *); if( s != NULL ) (void)strlen(s); break; }
		case '%': break;
		case 'p': (void)va_arg(ap, void *); break;
		case 'c': case 'd': case 'i': case 'u': case 'x': case 'X': if( l ) (void)va_arg(ap, uint64_t); else (void)va_arg(ap, int); break;
		default: sx_assert(0, "format within the printf model");
		}
	}
	return 0;
}
#ifdef VP_OPAQUE_FLOATS
int vsscanf(char const *s, char const *fmt, va_list ap){
	sx_assert(fmt[0]=='%' && fmt[1]=='L' && (fmt[2]=='f' || fmt[2]=='a') && fmt[3]==0, "format within the scanf model");
	char *e = NULL;
	long double const v = strtold(s, &e);
	if( e==s ) return s[0]==0? -1 : 0;
	*va_arg(ap, long double *) = v;
	return 1;
}
int __isoc23_vsscanf(char const *s, char const *fmt, va_list ap){ return vsscanf(s, fmt, ap); }
#endif
static void swp(char *a, char *b, size_t s){ for( size_t i=0;i<s;i++ ) { char t=a[i]; a[i]=b[i]; b[i]=t; } }
void qsort(void *b, size_t n, size_t s, int (*cmp)(void const *, void const *)){
	char *p = b;
	for( size_t i=1;i<n;i++ ) for( size_t j=i; j>0 && cmp(p+(j-1)*s, p+j*s)>0; j-- ) swp(p+(j-1)*s, p+j*s, s);
}
