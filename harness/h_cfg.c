// Config parser: any bytes inside every kind of context; no memory error, nothing left behind.
//@src cfg/cfg.c map/map.c variant/variant.c str/str.c lex/lex.c math/math_parser.c msg_sys/msg_sys.c
//@rt vp_stdio.c
//@job G01 func=H_text engine=sx unwind=1 cost=1 defs=CTX=0,N=3,VP_OPAQUE_FLOATS=1
//@job G01 func=H_text engine=sx unwind=1 cost=1 defs=CTX=1,N=3,VP_OPAQUE_FLOATS=1
//@job G01 func=H_text engine=sx unwind=1 cost=1 defs=CTX=2,N=3,VP_OPAQUE_FLOATS=1
//@job G01 func=H_text engine=sx unwind=1 cost=1 defs=CTX=3,N=3,VP_OPAQUE_FLOATS=1
//@job G01 func=H_text engine=sx unwind=1 cost=1 defs=CTX=4,N=3,VP_OPAQUE_FLOATS=1
//@job G01 func=H_text engine=sx unwind=1 cost=1 defs=CTX=5,N=3,VP_OPAQUE_FLOATS=1
//@job G01 func=H_text engine=sx unwind=1 cost=5 defs=CTX=6,N=3,VP_OPAQUE_FLOATS=1
//@job G01 func=H_text engine=sx unwind=1 cost=3 defs=CTX=7,N=3,VP_OPAQUE_FLOATS=1
//@job G01 func=H_text engine=sx unwind=1 cost=1 defs=CTX=8,N=2,VP_OPAQUE_FLOATS=1
//@job G01 func=H_text engine=sx unwind=1 cost=3 defs=CTX=9,N=3,VP_OPAQUE_FLOATS=1
//@job G01 func=H_text engine=sx unwind=1 cost=3 defs=CTX=10,N=3,VP_OPAQUE_FLOATS=1
//@job G01 func=H_text engine=sx unwind=1 cost=1 defs=CTX=11,N=3,VP_OPAQUE_FLOATS=1
//@job G01 func=H_text engine=sx unwind=1 cost=1 defs=CTX=12,N=3,VP_OPAQUE_FLOATS=1
//@job G01 func=H_text engine=sx unwind=1 cost=1 defs=CTX=13,N=3,VP_OPAQUE_FLOATS=1
//@job G01 func=H_text engine=sx unwind=1 cost=1 defs=CTX=14,N=3,VP_OPAQUE_FLOATS=1
//@job G01 func=H_text engine=sx unwind=1 cost=1 defs=CTX=16,N=3,VP_OPAQUE_FLOATS=1
//@job G01 func=H_text engine=sx unwind=1 cost=1 defs=CTX=17,N=3,VP_OPAQUE_FLOATS=1
//@job G01 func=H_text engine=sx unwind=1 cost=1 defs=CTX=18,N=3,VP_OPAQUE_FLOATS=1
//@job G01 func=H_text engine=sx unwind=1 cost=1 defs=CTX=19,N=3,VP_OPAQUE_FLOATS=1
//@job G01 func=H_text engine=sx unwind=1 cost=11 defs=CTX=20,N=3,VP_OPAQUE_FLOATS=1
//@job G01 func=H_text engine=sx unwind=1 cost=4 defs=CTX=21,N=3,VP_OPAQUE_FLOATS=1
//@job G01 func=H_text engine=sx unwind=1 tier=thorough timeout=600 defs=CTX=0,N=4,VP_OPAQUE_FLOATS=1
//@job G01 func=H_text engine=sx unwind=1 tier=thorough timeout=600 defs=CTX=1,N=4,VP_OPAQUE_FLOATS=1
//@job G01 func=H_text engine=sx unwind=1 tier=thorough timeout=600 defs=CTX=2,N=4,VP_OPAQUE_FLOATS=1
//@job G01 func=H_text engine=sx unwind=1 tier=thorough timeout=600 defs=CTX=3,N=4,VP_OPAQUE_FLOATS=1
//@job G01 func=H_text engine=sx unwind=1 tier=thorough timeout=600 defs=CTX=4,N=4,VP_OPAQUE_FLOATS=1
//@job G01 func=H_text engine=sx unwind=1 tier=thorough timeout=600 defs=CTX=5,N=4,VP_OPAQUE_FLOATS=1
//@job G01 func=H_text engine=sx unwind=1 tier=thorough timeout=600 defs=CTX=6,N=4,VP_OPAQUE_FLOATS=1
//@job G01 func=H_text engine=sx unwind=1 tier=thorough timeout=600 defs=CTX=7,N=4,VP_OPAQUE_FLOATS=1
//@job G01 func=H_text engine=sx unwind=1 tier=thorough timeout=600 defs=CTX=9,N=4,VP_OPAQUE_FLOATS=1
//@job G01 func=H_text engine=sx unwind=1 tier=thorough timeout=600 defs=CTX=10,N=4,VP_OPAQUE_FLOATS=1
//@job G01 func=H_text engine=sx unwind=1 tier=thorough timeout=600 defs=CTX=11,N=4,VP_OPAQUE_FLOATS=1
//@job G01 func=H_text engine=sx unwind=1 tier=thorough timeout=600 defs=CTX=12,N=4,VP_OPAQUE_FLOATS=1
//@job G01 func=H_text engine=sx unwind=1 tier=thorough timeout=600 defs=CTX=13,N=4,VP_OPAQUE_FLOATS=1
//@job G01 func=H_text engine=sx unwind=1 tier=thorough timeout=600 defs=CTX=14,N=4,VP_OPAQUE_FLOATS=1
//@job G01 func=H_text engine=sx unwind=1 tier=thorough timeout=600 defs=CTX=16,N=4,VP_OPAQUE_FLOATS=1
//@job G01 func=H_text engine=sx unwind=1 tier=thorough timeout=600 defs=CTX=17,N=4,VP_OPAQUE_FLOATS=1
//@job G01 func=H_text engine=sx unwind=1 tier=thorough timeout=600 defs=CTX=18,N=4,VP_OPAQUE_FLOATS=1
//@job G01 func=H_text engine=sx unwind=1 tier=thorough timeout=600 defs=CTX=19,N=4,VP_OPAQUE_FLOATS=1
//@job G01 func=H_text engine=sx unwind=1 tier=thorough timeout=600 defs=CTX=21,N=4,VP_OPAQUE_FLOATS=1
//@job G01 func=H_file engine=sx unwind=1 defs=MODE=0,N=3,VP_OPAQUE_FLOATS=1,VP_STDIO
//@job G01 func=H_file engine=sx unwind=1 defs=MODE=1,N=3,VP_OPAQUE_FLOATS=1,VP_STDIO
//@job G01 func=H_deep engine=sx unwind=1 defs=N=1,VP_OPAQUE_FLOATS=1
#include "vp.h"
#include "cfg/cfg.h"
extern int vp_randmask;
#ifndef N
#define N 3
#endif
#ifndef CTX
#define CTX 0
#endif
static struct { char const *pre, *post; } const C[] = {
	{"", ""}, {"'a':", " 'b' 1"}, {"'a'{", "}"}, {"'a' v[", "]"}, {"'a' c[1,", "]'b' 2"}, {"'a' \"", "\" 'b' null"},
	{"'a' '<math", ">' 'b' 1"}, {"'", "' 1"}, {"'<enum>'0 '<math", ">' {}"}, {"'a'0x", " "}, {"'a'-0", ","}, {"'a'{'a'1.5", "}}"},
	{"'a' '<mat", "'"}, {"'a' v[1", ".5,2]"}, {"'a'1 '<enum>'2 'x<ENUM>'3 '", "'{}"}, {"'a' <f", ">"}, {"'a'/", "/'b' 2"}, {"'a'{'b'{'c'tru", "}}"},
	{"'a'iot", "'b'IOTA"}, {"'a' '<math(2", "> '"}, {"'<enum>' 1 '0", "' \"x\""}, {"'x<math", "'1"},
};
static void check_map(struct HarbolMap const *m){
	for( size_t i=0;i<m->len;i++ ) {
		struct HarbolVariant const *v = (void const *)m->datum[i];
		vp_assert(m->keys[i] != NULL && v != NULL && v->data != NULL, "every entry has a key and a value");
		vp_assert(v->tag>=HarbolCfgType_Null && v->tag<=HarbolCfgType_Vec4D, "every entry has a type");
		if( v->tag==HarbolCfgType_Map ) check_map(*(struct HarbolMap **)v->data);
	}
}
static void text(char const *t){
	vp_randmask = 0;
	struct HarbolMap *m = harbol_cfg_parse_cstr(t);
	vp_assert(m != NULL, "parsing yields a configuration");
	check_map(m);
	struct HarbolString s = harbol_cfg_to_str(m);
	harbol_string_clear(&s);
	harbol_cfg_free(&m);
	vp_assert(m==NULL, "reference is cleared");
	vp_assert(vp_live==0, "everything is released");
	vp_reach("parsed");
}
void H_text(void){
	char T[80];
	size_t n = 0;
	for( char const *p=C[CTX].pre; *p; p++ ) T[n++] = *p;
	for( size_t i=0;i<N;i++ ) T[n++] = (char)vp_u8();
	for( char const *p=C[CTX].post; *p; p++ ) T[n++] = *p;
	T[n] = 0;
	text(T);
}

/* a file of N arbitrary bytes, missing or not; by name or included */
#ifndef MODE
#define MODE 0
#endif
#ifdef VP_STDIO
extern uint8_t vp_fdata[]; extern size_t vp_flen; extern bool vp_fmissing; extern int vp_fopened;
void H_file(void){
	vp_randmask = 0;
	vp_fmissing = vp_bool(); vp_flen = vp_pick(0, N);
	for( size_t i=0;i<N;i++ ) vp_fdata[i] = vp_u8();
	struct HarbolMap *m = MODE==0? harbol_cfg_parse_file("f") : harbol_cfg_parse_cstr("'<include>' 'f' 'b' 1");
	vp_assert(vp_fopened==0, "files are closed");
	vp_assert(MODE==0? (vp_fmissing? m==NULL : true) : m != NULL, "a missing file is reported");
	if( vp_flen>0 && !vp_fmissing ) vp_assert(m != NULL, "a file with text is a configuration");
	if( m != NULL ) {
		check_map(m);
		if( MODE==1 ) {
			intmax_t *i = harbol_cfg_get_int(m, "b");
			vp_assert(i != NULL && *i==1, "what follows an included file is read on");
			vp_assert(vp_fmissing || vp_flen==0 || harbol_cfg_get_section(m, "f") != NULL, "an included file is a section of its name");
		}
		harbol_cfg_free(&m);
		vp_reach("parsed");
	}
	vp_assert(vp_live==0, "everything is released");
}
#endif
/* a value below several sections that end or don't */
void H_deep(void){
	char T[120]; size_t n = 0; char const *p;
	size_t const d = vp_pick(1, 4), e = vp_pick(0, 5);
	for( size_t i=0;i<d;i++ ) for( p="'s'{"; *p; p++ ) T[n++] = *p;
	for( p="'v' "; *p; p++ ) T[n++] = *p;
	for( size_t i=0;i<N;i++ ) T[n++] = (char)vp_u8();
	for( size_t i=0;i<e;i++ ) T[n++] = '}';
	T[n] = 0;
	text(T);
}
