// Unifying line ends and expanding tabs in a text of N arbitrary non-NUL bytes.
//@src lex/lex.c
//@rt vp_libc.c
#include "vp.h"
#include <ctype.h>
#include "vp_str.h"
#include "lex/lex.h"
#ifndef N
#define N 3
#endif
#ifndef TABS
#define TABS 0
#endif
//@job L01 func=H_newlines unwind=5 defs=VP_STRCAP=5,N=3,TABS=0 us=H_newlines.3:14,H_newlines.2:6,H_newlines.1:6,H_newlines.0:6,vp_fixed_resize.0:6
//@job L01 func=H_newlines unwind=9 defs=VP_STRCAP=10,N=2,TABS=1 us=vp_fixed_resize.0:11
//@job L01 func=H_newlines unwind=6 defs=VP_STRCAP=5,N=0,TABS=1
void H_newlines(void){
	struct HarbolString t = vp_str_ready(); char o[N+1], x[4*N+1]; size_t k = 0;
	t.len = N;
	for( size_t i=0;i<N;i++ ) { o[i] = t.cstr[i] = (char)vp_u8(); vp_assume(o[i] != 0); }
	o[N] = 0;
	for( size_t i=0;i<N;i++ ) {
		if( o[i]=='\r' ) { x[k++] = '\n'; if( o[i+1]=='\n' ) i++; }
		else if( TABS && o[i]=='\t' ) { for( int q=0;q<4;q++ ) x[k++] = ' '; }
		else x[k++] = o[i];
	}
	lex_fix_newlines(&t, TABS);
	vp_assert(t.len==k, "length of the text");
	for( size_t i=0;i<4*N;i++ ) if( i<k ) vp_assert(t.cstr[i]==x[i], "line ends unified, tabs expanded");
	if( t.cstr != NULL ) vp_assert(t.cstr[k]==0, "terminated");
	harbol_string_clear(&t);
	vp_assert(vp_live==0, "released");
	vp_reach("end");
}
