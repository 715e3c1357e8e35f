// Code points of a file of LEN arbitrary bytes.
//@src lex/lex.c
//@rt vp_libc.c vp_stdio.c
#include "vp.h"
#include <ctype.h>
#include "vp_str.h"
#include "lex/lex.h"
extern uint8_t vp_fdata[]; extern size_t vp_flen; void *vp_infile(void);
#ifndef LEN
#define LEN 3
#endif
#ifndef FAILS
#define FAILS 0
#endif
//@job L03 func=H_utf8_stream unwind=18 us=get_utf8_len.0:10 defs=VP_STDIO,LEN=3
//@job L03 func=H_utf8_stream unwind=18 us=get_utf8_len.0:10 defs=VP_STDIO,LEN=0
//@job L03 func=H_utf8_stream unwind=18 us=get_utf8_len.0:10 defs=VP_STDIO,LEN=3,FAILS=1
void H_utf8_stream(void){
	int32_t u[LEN+1]; size_t k = 0;
	vp_flen = LEN;
	for( size_t i=0;i<LEN;i++ ) vp_fdata[i] = vp_u8();
	bool const pair = LEN>=2 && vp_fdata[0]>=0xC2 && vp_fdata[0]<=0xDF && vp_fdata[1]>=0x80 && vp_fdata[1]<=0xBF;
	bool plain = true;
	for( size_t i=0;i<LEN;i++ ) if( !(pair && i<2) && (vp_fdata[i]==0 || vp_fdata[i]>0x7F) ) plain = false;
	if( pair ) u[k++] = (vp_fdata[0]-0xC0)*64 + vp_fdata[1]-0x80;
	for( size_t i=pair?2:0;i<LEN;i++ ) u[k++] = vp_fdata[i];
	size_t n = 77; size_t const f0 = vp_failed;
	vp_alloc_may_fail = FAILS;
	int32_t *v = runes_from_stream(vp_infile(), &n);
	vp_alloc_may_fail = 0;
	vp_assert((v==NULL)==(LEN==0 || vp_failed != f0), "fails only without memory or characters");
	if( v==NULL ) vp_assert(n==0, "nothing read");
	else {
		vp_assert(n<=LEN && v[n]==0, "terminated");
		if( plain ) { vp_assert(n==k, "number of characters"); for( size_t i=0;i<LEN;i++ ) if( i<k ) vp_assert(v[i]==u[i], "characters of the file"); }
	}
	free(v);
	vp_assert(vp_live==0, "released");
	vp_reach("end");
}
