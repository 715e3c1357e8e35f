// Plain diagnostics: the text written for a message, and the count of messages.
//@src msg_sys/msg_sys.c
//@rt vp_stdio.c
#include "vp.h"
#include <stdio.h>
#include "msg_sys/msg_sys.h"
extern uint8_t vp_fout[]; extern size_t vp_foutlen; extern int vp_fopened;
void *vp_outfile(void);
static char W[VP_FMAX]; static size_t wn;
static void put(char const *s){ while( *s ) W[wn++] = *s++; }
static void num(uint32_t n){ char b[12]; int k = 0; do { b[k++] = (char)('0'+n%10); n /= 10; } while( n ); while( k ) W[wn++] = b[--k]; }
static void word(char *t, size_t n){ size_t const m = vp_pick(0, n); for( size_t i=0;i<m;i++ ) { t[i] = (char)vp_u8(); vp_assume(t[i] != 0); } t[m] = 0; }
//@job D04 engine=sx func=H_msg defs=VP_STDIO,VP_FMAX=120
void H_msg(void){
	static uint32_t const L[] = {0, 9, 10, 4294967295u};
	char file[3], type[3], arg[3];
	word(file, 2); word(type, 2); word(arg, 2);
	bool const f = vp_bool(), l = vp_bool(), c = vp_bool(), count = vp_bool();
	uint32_t const line = L[vp_pick(0,3)], col = L[vp_pick(0,3)];
	size_t cnt = vp_u64(); size_t const was = cnt;
	char const *const color = vp_bool()? COLOR_RED : "";
	harbol_write_msg(count? &cnt : NULL, vp_outfile(), f? file : NULL, type, color, l? &line : NULL, c? &col : NULL, "<%s|%i|%u%%>", arg, -7, 12u);
	vp_assert(cnt==(count? was+1 : was), "messages are counted where asked for");
	if( f ) { put("("); put(file); if( l ) { put(":"); num(line); } if( c ) { put(":"); num(col); } put(") "); }
	put(color); put(type); put(COLOR_RESET); put(": **** <"); put(arg); put("|-7|12%> ****\n");
	vp_assert(vp_foutlen==wn, "the output has its length");
	for( size_t i=0;i<wn;i++ ) vp_assert(vp_fout[i]==(uint8_t)W[i], "the output is place, kind and message");
	if( f && l && c ) vp_reach("with place");
	if( !f ) vp_reach("without");
}
/* several messages one behind the other */
//@job D04 engine=sx func=H_msgs defs=VP_STDIO,VP_FMAX=120
void H_msgs(void){
	size_t cnt = 0, want = 0; void *const out = vp_outfile(); uint32_t const line = 3;
	size_t const n = vp_pick(0, 3);
	for( size_t i=0;i<n;i++ ) {
		char t[3]; word(t, 2);
		bool const here = vp_bool(), count = vp_bool();
		harbol_write_msg(count? &cnt : NULL, out, here? "f" : NULL, "e", "", here? &line : NULL, NULL, "%s", t);
		if( count ) want++;
		if( here ) put("(f:3) ");
		put("e"); put(COLOR_RESET); put(": **** "); put(t); put(" ****\n");
	}
	vp_assert(cnt==want, "messages are counted where asked for");
	vp_assert(vp_foutlen==wn, "nothing but the messages");
	for( size_t i=0;i<wn;i++ ) vp_assert(vp_fout[i]==(uint8_t)W[i], "in their order");
	vp_reach("end");
}
