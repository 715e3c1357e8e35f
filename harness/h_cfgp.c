// Config paths: lookups and updates against a model tree.
//@src cfg/cfg.c map/map.c variant/variant.c str/str.c lex/lex.c math/math_parser.c msg_sys/msg_sys.c
//@rt
//@job G02 func=H_lookup engine=sx unwind=1 defs=NAMES=1,P=5,VP_OPAQUE_FLOATS=1 cost=3
//@job G02 func=H_lookup engine=sx unwind=1 defs=NAMES=2,P=4,VP_OPAQUE_FLOATS=1 cost=3
//@job G02 func=H_lookup engine=sx unwind=1 tier=thorough timeout=600 defs=NAMES=1,P=6,VP_OPAQUE_FLOATS=1
//@job G02 func=H_lookup engine=sx unwind=1 tier=thorough timeout=600 defs=NAMES=2,P=5,VP_OPAQUE_FLOATS=1
//@job G02 func=H_update engine=sx unwind=1 defs=KIND=0,VP_OPAQUE_FLOATS=1
//@job G02 func=H_update engine=sx unwind=1 defs=KIND=1,VP_OPAQUE_FLOATS=1
//@job G02 func=H_update engine=sx unwind=1 defs=KIND=2,VP_OPAQUE_FLOATS=1
//@job G02 func=H_update engine=sx unwind=1 defs=KIND=3,VP_OPAQUE_FLOATS=1
//@job G02 func=H_update engine=sx unwind=1 defs=KIND=4,VP_OPAQUE_FLOATS=1
//@job G02 func=H_update engine=sx unwind=1 defs=KIND=5,VP_OPAQUE_FLOATS=1
//@job G02 func=H_update engine=sx unwind=1 defs=KIND=6,VP_OPAQUE_FLOATS=1
//@job G02 func=H_update engine=sx unwind=1 defs=KIND=7,VP_OPAQUE_FLOATS=1
#include "vp.h"
#include "cfg/cfg.h"
#include <string.h>
extern int vp_randmask;
#ifndef NAMES
#define NAMES 1
#endif
#ifndef P
#define P 4
#endif
#ifndef KIND
#define KIND 0
#endif
/* the model: A { B { C D } E } F, and seven more values at the root when updated */
enum { NN = 12 };
struct node { int parent; char name[4]; int tag; union { intmax_t i; bool b; char s[3]; uint8_t c[4]; float v[4]; floatmax_t f; } u; };
static struct node M[NN]; static int nn;
static size_t mlen(char const *s){ size_t n=0; while( s[n] ) n++; return n; }
static bool same(char const *a, char const *b){ size_t i=0; while( a[i] && a[i]==b[i] ) i++; return a[i]==b[i]; }
static char T[240]; static size_t tn;
static void put(char const *s){ while( *s ) T[tn++] = *s++; T[tn] = 0; }
static void emit(int parent){
	for( int i=0;i<nn;i++ ) if( M[i].parent==parent ) {
		put("'"); put(M[i].name); put("':");
		switch( M[i].tag ) {
		case HarbolCfgType_Null: put("null"); break;
		case HarbolCfgType_Map: put("{"); emit(i); put("}"); break;
		case HarbolCfgType_String: put("\""); put(M[i].u.s); put("\""); break;
		case HarbolCfgType_Int: { char d[2] = {(char)('0'+M[i].u.i), 0}; put(d); break; }
		case HarbolCfgType_Bool: put(M[i].u.b? "true" : "false"); break;
		case HarbolCfgType_Color: put("c[1,2,3,4]"); break;
		case HarbolCfgType_Vec4D: put("v[1.0,1.0,1.0,1.0]"); break;
		case HarbolCfgType_Float: put("0.5"); break;
		}
		put(" ");
	}
}
static void agree(struct HarbolMap const *m, int parent, int skip){
	size_t k = 0;
	for( int i=0;i<nn;i++ ) if( M[i].parent==parent ) {
		vp_assert(k<m->len, "no entry is missing");
		struct HarbolVariant const *v = (void const *)m->datum[k];
		vp_assert(m->keylens[k]==mlen(M[i].name)+1 && same((char const *)m->keys[k], M[i].name), "entries keep their names");
		vp_assert((int)v->tag==M[i].tag, "entries keep their types");
		switch( M[i].tag ) {
		case HarbolCfgType_Map: agree(*(struct HarbolMap **)v->data, i, skip); break;
		case HarbolCfgType_String: { struct HarbolString const *s = *(struct HarbolString **)v->data;
			vp_assert(s->len==mlen(M[i].u.s), "strings keep their length");
			for( size_t j=0;j<s->len;j++ ) vp_assert(s->cstr[j]==M[i].u.s[j], "strings keep their text"); break; }
		case HarbolCfgType_Int: vp_assert(*(intmax_t *)v->data==M[i].u.i, "integers keep their value"); break;
		case HarbolCfgType_Bool: vp_assert(*(bool *)v->data==M[i].u.b, "booleans keep their value"); break;
		case HarbolCfgType_Color: for( int j=0;j<4;j++ ) vp_assert(((uint8_t *)v->data)[j]==M[i].u.c[j], "colours keep their value"); break;
		case HarbolCfgType_Float: if( i==skip ) vp_assert(*(floatmax_t *)v->data==M[i].u.f, "floats keep their value"); break;
		case HarbolCfgType_Vec4D: if( i==skip ) for( int j=0;j<4;j++ ) vp_assert(((float *)v->data)[j]==M[i].u.v[j], "vectors keep their value"); break;
		}
		k++;
	}
	vp_assert(k==m->len, "no entry appears from nowhere");
}
static int child(int parent, char const *name){ for( int i=0;i<nn;i++ ) if( M[i].parent==parent && same(M[i].name, name) ) return i; return -1; }
/* node a path leads to, -1 none */
static int walk(char const *path, bool *wellformed){
	int at = -1; char name[P+2]; size_t n = 0, i = 0; bool dot = false;
	*wellformed = true;
	for( size_t j=0; path[j]; j++ ) if( path[j]=='.' ) dot = true;
	if( !dot ) return child(-1, path);
	for( ;; ) {
		n = 0;
		while( path[i] && path[i]!='.' ) { if( path[i]=='\\' && path[i+1]=='.' ) i++; name[n++] = path[i++]; }
		name[n] = 0;
		if( n==0 ) { *wellformed = false; return -1; }
		if( at>=0 && M[at].tag != HarbolCfgType_Map ) at = -2;
		if( at != -2 ) { at = child(at, name); if( at<0 ) at = -2; }
		if( path[i]==0 ) return at<0? -1 : at;
		i++;
		if( path[i]==0 ) { *wellformed = false; return -1; }
	}
}
static int add(int parent, char a, char b, int tag){ M[nn].parent = parent; M[nn].name[0] = a; M[nn].name[1] = b; M[nn].name[2] = 0; M[nn].tag = tag; return nn++; }
static void tree(void){
	char x, y;
#define PAIR do{ x = vp_bool()? 'a' : 'b'; y = x=='a'? 'b' : 'a'; }while(0)
	PAIR; int const A = add(-1, x, 0, HarbolCfgType_Map), F = add(-1, y, 0, HarbolCfgType_Null); (void)F;
	PAIR; int const B = add(A, x, 0, HarbolCfgType_Map), E = add(A, y, 0, HarbolCfgType_Bool); M[E].u.b = true;
	PAIR; int const C = add(B, x, 0, HarbolCfgType_Int), D = add(B, y, 0, HarbolCfgType_String);
	M[C].u.i = 5; M[D].u.s[0] = 's'; M[D].u.s[1] = 0;
#if NAMES==2
	int const G = add(-1, 'a', '.', HarbolCfgType_Map), H = add(A, '.', 0, HarbolCfgType_Int), K = add(G, '.', 'a', HarbolCfgType_Int), J = add(-1, '\\', 0, HarbolCfgType_Null);
	M[H].u.i = 6; M[K].u.i = 7; (void)J;
#endif
	tn = 0;
	emit(-1);
#if NAMES==2
	/* in the text, the backslash of a name is written twice */
	char U[240]; size_t m = 0;
	for( size_t i=0;i<tn;i++ ) { U[m++] = T[i]; if( T[i]=='\\' ) U[m++] = '\\'; }
	U[m] = 0;
	for( size_t i=0;i<=m;i++ ) T[i] = U[i];
#endif
}
static void look(struct HarbolMap *m, char const *path, int want, int skip){
	size_t len = 99;
	int const t = want<0? HarbolCfgType_Invalid : M[want].tag;
	vp_assert((int)harbol_cfg_get_type(m, path)==t, "a path leads to the entry it names");
	struct HarbolMap *sec = harbol_cfg_get_section(m, path);
	vp_assert((sec != NULL)==(t==HarbolCfgType_Map), "sections are found by their path only");
	if( sec != NULL ) agree(sec, want, skip);
	char *cs = harbol_cfg_get_cstr(m, path, &len);
	struct HarbolString *s = harbol_cfg_get_str(m, path);
	vp_assert((s != NULL)==(t==HarbolCfgType_String), "strings are found by their path only");
	if( s != NULL ) { vp_assert(cs==s->cstr && len==s->len && len==mlen(M[want].u.s), "text and length of a string"); for( size_t i=0;i<len;i++ ) vp_assert(cs[i]==M[want].u.s[i], "text of a string"); }
	else vp_assert(cs==NULL, "no text without a string");
	intmax_t *i = harbol_cfg_get_int(m, path);
	vp_assert((i != NULL)==(t==HarbolCfgType_Int) && (i==NULL || *i==M[want].u.i), "integers are found by their path only");
	bool *b = harbol_cfg_get_bool(m, path);
	vp_assert((b != NULL)==(t==HarbolCfgType_Bool) && (b==NULL || *b==M[want].u.b), "booleans are found by their path only");
	vp_assert((harbol_cfg_get_float(m, path) != NULL)==(t==HarbolCfgType_Float), "floats are found by their path only");
	vp_assert((harbol_cfg_get_color(m, path) != NULL)==(t==HarbolCfgType_Color), "colours are found by their path only");
	vp_assert((harbol_cfg_get_vec4D(m, path) != NULL)==(t==HarbolCfgType_Vec4D), "vectors are found by their path only");
}
static struct HarbolMap *parse(void){
	vp_randmask = 0;
	struct HarbolMap *m = harbol_cfg_parse_cstr(T);
	vp_assert(m != NULL, "text is parsed");
	agree(m, -1, -1);
	return m;
}
static void done(struct HarbolMap *m){ harbol_cfg_free(&m); vp_assert(vp_live==0, "everything is released"); }
void H_lookup(void){
	tree();
	struct HarbolMap *m = parse();
	char path[P+1]; size_t const n = vp_pick(1, P);
	for( size_t i=0;i<n;i++ ) { uint8_t const c = vp_u8(); vp_assume(c=='a' || c=='b' || c=='.' || c=='\\'); path[i] = (char)c; }
	path[n] = 0;
	bool ok; int const w = walk(path, &ok);
	vp_assume(ok);
	look(m, path, w, -1);
	agree(m, -1, -1);
	if( w>=0 && n>=P-1 ) vp_reach("found");
	if( w<0 ) vp_reach("not found");
	done(m);
}
/* any entry of any type updated to any type */
void H_update(void){
	tree();
	static int const tags[] = {HarbolCfgType_String, HarbolCfgType_Float, HarbolCfgType_Int, HarbolCfgType_Bool, HarbolCfgType_Color, HarbolCfgType_Vec4D};
	for( int i=0;i<6;i++ ) {
		int const k = add(0, (char)('c'+i), 0, tags[i]);
		if( tags[i]==HarbolCfgType_String ) { M[k].u.s[0] = 'q'; M[k].u.s[1] = 0; }
		if( tags[i]==HarbolCfgType_Int ) M[k].u.i = 3;
		if( tags[i]==HarbolCfgType_Bool ) M[k].u.b = false;
		if( tags[i]==HarbolCfgType_Color ) for( int j=0;j<4;j++ ) M[k].u.c[j] = (uint8_t)(j+1);
	}
	tn = 0; emit(-1);
	struct HarbolMap *m = parse();
	int const w = (int)vp_pick(0, (uint64_t)nn); /* nn: no entry */
	char path[8]; size_t n = 0;
	if( w==nn ) { path[n++] = M[0].name[0]; path[n++] = '.'; path[n++] = 'z'; }
	else { int up[4], k = 0; for( int i=w; i>=0; i=M[i].parent ) up[k++] = i; while( k ) { path[n++] = M[up[--k]].name[0]; if( k ) path[n++] = '.'; } }
	path[n] = 0;
	bool const ov = vp_bool();
	bool r = false; int tag = 0;
	struct node neu = {0};
	switch( KIND ) {
	case 0: case 1: {
		size_t const l = vp_pick(0, 2); for( size_t i=0;i<l;i++ ) { neu.u.s[i] = (char)vp_u8(); vp_assume(neu.u.s[i] != 0); } neu.u.s[l] = 0;
		tag = HarbolCfgType_String;
		if( KIND==0 ) r = harbol_cfg_set_cstr(m, path, neu.u.s, ov);
		else { struct HarbolString s = {0}; if( l>0 ) s = harbol_string_make(neu.u.s, &(bool){false}); r = harbol_cfg_set_str(m, path, s, ov); harbol_string_clear(&s); }
		break; }
	case 2: tag = HarbolCfgType_Float; neu.u.f = 1.5L; r = harbol_cfg_set_float(m, path, 1.5L, ov); break;
	case 3: tag = HarbolCfgType_Int; neu.u.i = (intmax_t)vp_u64(); r = harbol_cfg_set_int(m, path, neu.u.i, ov); break;
	case 4: tag = HarbolCfgType_Bool; neu.u.b = vp_bool(); r = harbol_cfg_set_bool(m, path, neu.u.b, ov); break;
	case 5: { tag = HarbolCfgType_Color; union HarbolColor c; for( int j=0;j<4;j++ ) neu.u.c[j] = c.array[j] = vp_u8(); r = harbol_cfg_set_color(m, path, c, ov); break; }
	case 6: { tag = HarbolCfgType_Vec4D; struct HarbolVec4D v = {1.f,-2.f,3.f,4.f}; neu.u.v[0]=1.f; neu.u.v[1]=-2.f; neu.u.v[2]=3.f; neu.u.v[3]=4.f; r = harbol_cfg_set_vec4D(m, path, v, ov); break; }
	case 7: tag = HarbolCfgType_Null; r = harbol_cfg_set_to_null(m, path); break;
	}
	bool const can = w<nn && (M[w].tag==tag || ov || KIND==7);
	vp_assert(r==can, "an update is refused exactly when there is no such entry or it has another type");
	if( can ) {
		for( int i=0;i<nn;i++ ) { int a = M[i].parent; while( a>=0 && a!=w ) a = M[a].parent; if( a==w && w>=0 ) M[i].parent = -3; } /* what was below a section is gone */
		M[w].tag = tag; M[w].u = neu.u;
		vp_reach("updated");
	}
	agree(m, -1, can? w : -1);
	look(m, path, w<nn? w : -1, can? w : -1);
	done(m);
}
