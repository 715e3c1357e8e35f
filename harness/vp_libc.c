/* libc functions CBMC has no body for; used only in the encoding, the native replay uses the real ones */
#include "vp.h"
#ifdef VP_CBMC
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
char *strstr(char const *h, char const *n){
	for( ;; h++ ) {
		size_t i = 0;
		while( n[i] != 0 && h[i]==n[i] ) i++;
		if( n[i]==0 ) return (char*)h;
		if( *h==0 ) return NULL;
	}
}
void *memchr(void const *s, int c, size_t n){
	unsigned char const *p = s;
	for( size_t i=0; i<n; i++ ) if( p[i]==(unsigned char)c ) return (void*)&p[i];
	return NULL;
}
/* formats made of literal text, %s, %c, %d/%i/%zu/%u (small non-negative numbers) and %% */
int vsnprintf(char *buf, size_t n, char const *fmt, va_list ap){
	size_t k = 0;
#define OUT(ch) do{ if( n != 0 && k+1 < n ) buf[k] = (ch); k++; }while(0)
	for( size_t i=0; fmt[i] != 0; i++ ) {
		if( fmt[i] != '%' ) { OUT(fmt[i]); continue; }
		i++;
		if( fmt[i]=='s' ) { char const *s = va_arg(ap, char const*); for( size_t j=0; s[j] != 0; j++ ) OUT(s[j]); }
		else if( fmt[i]=='c' ) { int c = va_arg(ap, int); OUT((char)c); }
		else if( fmt[i]=='%' ) OUT('%');
		else {
			size_t v;
			if( fmt[i]=='z' ) { i++; v = va_arg(ap, size_t); } else v = va_arg(ap, unsigned);
			vp_assert(v < 1000, "number within the printf model");
			if( v >= 100 ) OUT((char)('0' + v/100));
			if( v >= 10 ) OUT((char)('0' + v/10%10));
			OUT((char)('0' + v%10));
		}
	}
	if( n != 0 ) buf[k < n? k : n-1] = 0;
	return (int)k;
}
#endif
