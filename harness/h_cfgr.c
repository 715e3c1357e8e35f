// Config text: what it spells, and back again.
//@src cfg/cfg.c map/map.c variant/variant.c str/str.c lex/lex.c math/math_parser.c msg_sys/msg_sys.c
//@rt vp_stdio.c
//@job G03 func=H_back engine=sx unwind=1 defs=KIND=0,VP_STDIO,VP_FMAX=100,VP_OPAQUE_FLOATS=1
//@job G03 func=H_back engine=sx unwind=1 defs=KIND=1,VP_STDIO,VP_FMAX=100,VP_OPAQUE_FLOATS=1
//@job G03 func=H_back engine=sx unwind=1 defs=KIND=2,VP_STDIO,VP_FMAX=100,VP_OPAQUE_FLOATS=1
//@job G03 func=H_back engine=sx unwind=1 defs=KIND=3,VP_STDIO,VP_FMAX=100,VP_OPAQUE_FLOATS=1
//@job G03 func=H_back engine=sx unwind=1 defs=KIND=4,VP_STDIO,VP_FMAX=100,VP_OPAQUE_FLOATS=1
//@job G03 func=H_back engine=sx unwind=1 defs=KIND=5,VP_STDIO,VP_FMAX=100,VP_OPAQUE_FLOATS=1
//@job G04 func=H_int engine=sx unwind=1 defs=N=3,VP_OPAQUE_FLOATS=1
//@job G04 func=H_int engine=sx unwind=1 tier=thorough timeout=600 defs=N=4,SIGN=0,VP_OPAQUE_FLOATS=1
//@job G04 func=H_int engine=sx unwind=1 tier=thorough timeout=600 defs=N=4,SIGN=1,VP_OPAQUE_FLOATS=1
//@job G04 func=H_int engine=sx unwind=1 tier=thorough timeout=600 defs=N=4,SIGN=2,VP_OPAQUE_FLOATS=1
//@job G04 func=H_tokens engine=sx unwind=1 defs=N=2,VALS=8,SEPS=4,VP_OPAQUE_FLOATS=1
//@job G04 func=H_tokens engine=sx unwind=1 defs=N=3,VALS=2,SEPS=0,VP_OPAQUE_FLOATS=1
//@job G04 func=H_tokens engine=sx unwind=1 defs=N=4,VALS=2,SEPS=0,NAMES=0,VP_OPAQUE_FLOATS=1
//@job G04 func=H_tokens engine=sx unwind=1 tier=thorough timeout=600 defs=N=3,VALS=8,SEPS=0,VP_OPAQUE_FLOATS=1
//@job G04 func=H_tokens engine=sx unwind=1 tier=thorough timeout=600 defs=N=5,VALS=2,SEPS=0,NAMES=1,VP_OPAQUE_FLOATS=1
//@job G04 func=H_counters engine=sx unwind=1 defs=N=3,VP_OPAQUE_FLOATS=1
//@job G04 func=H_strings engine=sx unwind=1 defs=N=3,VP_OPAQUE_FLOATS=1
#include "vp.h"
#include "cfg/cfg.h"
#include <string.h>
#include <stdint.h>
extern int vp_randmask;
extern uint8_t vp_fdata[], vp_fout[]; extern size_t vp_flen, vp_foutlen; extern bool vp_fmissing; extern int vp_fopened;
#ifndef N
#define N 3
#endif
#ifndef VALS
#define VALS 8
#endif
#ifndef SEPS
#define SEPS 4
#endif
#ifndef NAMES
#define NAMES 2
#endif
#ifndef KIND
#define KIND 0
#endif
static void done(struct HarbolMap **m){ harbol_cfg_free(m); vp_assert(vp_live==0, "everything is released"); }

/* ---- written and read back ---- */
#ifdef VP_STDIO
static void same(struct HarbolMap const *a, struct HarbolMap const *b){
	vp_assert(a->len==b->len, "as many entries");
	for( size_t i=0;i<a->len;i++ ) {
		vp_assert(a->keylens[i]==b->keylens[i], "names keep their length");
		for( size_t j=0;j<a->keylens[i];j++ ) vp_assert(a->keys[i][j]==b->keys[i][j], "names and their order are kept");
		struct HarbolVariant const *v = (void const *)a->datum[i], *w = (void const *)b->datum[i];
		vp_assert(v->tag==w->tag, "types are kept");
		switch( v->tag ) {
		case HarbolCfgType_Map: same(*(struct HarbolMap **)v->data, *(struct HarbolMap **)w->data); break;
		case HarbolCfgType_String: { struct HarbolString const *s = *(struct HarbolString **)v->data, *t = *(struct HarbolString **)w->data;
			vp_assert(s->len==t->len, "strings keep their length");
			for( size_t j=0;j<s->len;j++ ) vp_assert(s->cstr[j]==t->cstr[j], "strings keep their text");
			break; }
		case HarbolCfgType_Int: vp_assert(*(intmax_t *)v->data==*(intmax_t *)w->data, "integers keep their value"); break;
		case HarbolCfgType_Bool: vp_assert(*(bool *)v->data==*(bool *)w->data, "booleans keep their value"); break;
		case HarbolCfgType_Color: for( int j=0;j<4;j++ ) vp_assert(((uint8_t *)v->data)[j]==((uint8_t *)w->data)[j], "colours keep their value"); break;
		}
	}
}
static void add(struct HarbolMap *m, char const *key, void const *p, size_t n, int tag){
	struct HarbolVariant v = harbol_variant_make(p, n, tag, &(bool){false});
	vp_assert(harbol_map_insert(m, key, strlen(key)+1, &v, sizeof v), "built");
}
static void addint(struct HarbolMap *m, char const *k, intmax_t i){ add(m, k, &i, sizeof i, HarbolCfgType_Int); }
static void addstr(struct HarbolMap *m, char const *k, char const *t){ struct HarbolString *s = harbol_string_new(NULL); if( *t ) harbol_string_copy_cstr(s, t); add(m, k, &s, sizeof s, HarbolCfgType_String); }
static void word(char *w, size_t n){ for( size_t i=0;i<n;i++ ) { w[i] = (char)vp_u8(); vp_assume(w[i] != 0); } w[n] = 0; }
static struct HarbolMap *sect(struct HarbolMap *m, char const *k){ struct HarbolMap *s = harbol_map_new(4); add(m, k, &s, sizeof s, HarbolCfgType_Map); return s; }
void H_back(void){
	vp_randmask = 0;
	struct HarbolMap *m = harbol_map_new(4);
	char w[4];
	switch( KIND ) {
	case 0: { int64_t const i = (int64_t)vp_u64(); vp_assume(i>-1000 && i<1000); addint(m, "i", i); addint(m, "j", 1); break; }
	case 1: { static int64_t const x[] = {INT64_MIN, INT64_MAX, INT64_MIN+1, -1000000007, 4294967296, 1000000000000000000, 0};
		addint(m, "i", x[vp_pick(0, 6)]); addint(m, "j", x[vp_pick(0, 6)]); break; }
	case 2: word(w, vp_pick(0, 3)); addstr(m, "s", w); addint(m, "j", 1); break;
	case 3: word(w, vp_pick(1, 2)); vp_assume(!(w[0]=='j' && w[1]==0)); addint(m, w, 2); addint(m, "j", 1); break;
	case 4: { union HarbolColor c = {0}; int const k = (int)vp_pick(0, 3); for( int j=0;j<4;j++ ) c.array[j] = j==k? vp_u8() : (uint8_t)(j*60);
		add(m, "c", &c, sizeof c, HarbolCfgType_Color); bool b = vp_bool(); add(m, "b", &b, sizeof b, HarbolCfgType_Bool); break; }
	case 5: { /* sections: empty, full, nested */
		struct HarbolMap *at = m; static char const *const names[] = {"k", "l", "m", "n"};
		struct HarbolMap *s1 = NULL, *s2 = NULL;
		bool b = false;
		for( int i=0;i<4;i++ ) {
			at = m; uint64_t const where = vp_pick(0, s2? 2 : s1? 1 : 0), what = vp_pick(0, 2);
			if( where==1 ) at = s1;
			if( where==2 ) at = s2;
			if( what==0 ) add(at, names[i], &(char){0}, 1, HarbolCfgType_Null);
			else if( what==1 ) { b = vp_bool(); add(at, names[i], &b, sizeof b, HarbolCfgType_Bool); }
			else { struct HarbolMap *s = sect(at, names[i]); if( s1==NULL ) s1 = s; else s2 = s; }
		}
		break; }
	}
	struct HarbolString t = harbol_cfg_to_str(m);
	struct HarbolMap *n = harbol_cfg_parse_cstr(t.cstr);
	vp_assert(n != NULL, "written text is read");
	same(m, n);
	harbol_cfg_free(&n);
	/* to a file */
	vp_fmissing = false;
	vp_assert(harbol_cfg_build_file(m, "f", true), "written");
	vp_assert(vp_fopened==0, "closed");
	vp_assert(vp_foutlen<VP_FMAX, "bound on the text");
	for( size_t i=0;i<VP_FMAX;i++ ) if( i<vp_foutlen ) vp_fdata[i] = vp_fout[i];
	vp_flen = vp_foutlen;
	n = harbol_cfg_parse_file("f");
	vp_assert(n != NULL, "written file is read");
	same(m, n);
	harbol_cfg_free(&n);
	/* nothing */
	vp_fmissing = true;
	vp_assert(!harbol_cfg_build_file(m, "f", true), "a file that can't be made is reported");
	harbol_string_clear(&t);
	vp_reach("back");
	done(&m);
}
#endif

/* ---- integers of every base ---- */
static int dig(char c){ return c>='0' && c<='9'? c-'0' : c>='a' && c<='f'? c-'a'+10 : c>='A' && c<='F'? c-'A'+10 : 99; }
void H_int(void){
	char T[60]; size_t n = 0; char const *p;
	for( p="'a':"; *p; p++ ) T[n++] = *p;

#ifdef SIGN
	uint8_t const sign = SIGN;
#else
	uint8_t const sign = vp_pick(0, 2);
#endif
	uint8_t const base = vp_pick(0, 5); /* 16 16 2 2 8 10 */
	if( sign==1 ) T[n++] = '-';
	if( sign==2 ) T[n++] = '+';
	static char const *const pre[] = {"0x", "0X", "0b", "0B", "0", ""};
	static int const rad[] = {16, 16, 2, 2, 8, 10};
	for( p=pre[base]; *p; p++ ) T[n++] = *p;
	size_t const len = vp_pick(1, N);
	int64_t v = 0; bool sep = true;
	for( size_t i=0;i<len;i++ ) {
		char const c = (char)vp_u8();
		if( c=='\'' ) { vp_assume(!sep && i+1<len); sep = true; }
		else {
			vp_assume(dig(c)<rad[base]);
			vp_assume(!(base==5 && i==0 && c=='0' && len>1)); /* no octals by accident */
			vp_assume(!(base==4 && i==0 && c=='0'));
			v = v*rad[base] + dig(c); sep = false;
		}
		T[n++] = c;
	}
	if( sign==1 ) v = -v;
	static char const *const sfx[] = {"", "u", "LL", ",", "}", "/**/", "\n#'c' 1\n", " "};
	for( p=sfx[vp_pick(0, 7)]; *p; p++ ) T[n++] = *p;
	bool const stop = T[n-1]=='}';
	for( p=" 'b' 7"; *p; p++ ) T[n++] = *p;
	T[n] = 0;
	vp_randmask = 0;
	struct HarbolMap *m = harbol_cfg_parse_cstr(T);
	vp_assert(m != NULL, "parsed");
	intmax_t *i = harbol_cfg_get_int(m, "a");
	vp_assert(i != NULL, "an integer is an integer");
	vp_assert(*i==v, "an integer has the value its digits spell");
	i = harbol_cfg_get_int(m, "b");
	if( !stop ) vp_assert(i != NULL && *i==7 && m->len==2, "what follows is read on");
	vp_reach("int");
	done(&m);
}

/* ---- sequences of entries of all kinds ---- */
struct ent { int at, tag; char name[8]; intmax_t i; };
static struct ent E[16]; static int ne;
static char T[300]; static size_t tn;
static void put(char const *s){ while( *s ) T[tn++] = *s++; T[tn] = 0; }
/* any separator, any text in a comment */
static void any(char c){ T[tn++] = c; T[tn] = 0; }
static void sep(void){
	char const c = (char)vp_u8(), d = (char)vp_u8();
	switch( vp_pick(0, SEPS) ) {
	case 0: put(" "); break;
	case 1: vp_assume(c==' ' || c=='\t' || c=='\r' || c=='\n' || c=='\v' || c=='\f' || c==',' || c==':'); any(c); break;
	case 2: vp_assume(c != 0 && d != 0 && !(c=='*' && d=='/')); put("/*"); any(c); any(d); put("'z'*/"); break;
	case 3: vp_assume(c != 0 && c != '\n' && c != '\\'); put("//"); any(c); put("'z' 1\n"); break;
	case 4: vp_assume(c != 0 && c != '\n' && c != '\\' && d != 0 && d != '\n' && d != '\\'); put("#"); any(c); any(d); put("{\n"); break;
	}
}
static void agree(struct HarbolMap const *m, int at){
	size_t k = 0;
	for( int i=0;i<ne;i++ ) if( E[i].at==at ) {
		vp_assert(k<m->len, "no entry is missing");
		vp_assert(m->keylens[k]==strlen(E[i].name)+1 && !strcmp((char const *)m->keys[k], E[i].name), "entries have the names the text gives, in order");
		struct HarbolVariant const *v = (void const *)m->datum[k];
		vp_assert(v->tag==E[i].tag, "entries have the type the text gives");
		switch( v->tag ) {
		case HarbolCfgType_Map: agree(*(struct HarbolMap **)v->data, i); break;
		case HarbolCfgType_Int: vp_assert(*(intmax_t *)v->data==E[i].i, "integers and counters have their value"); break;
		case HarbolCfgType_Bool: vp_assert(*(bool *)v->data==(E[i].i != 0), "booleans have their value"); break;
		case HarbolCfgType_String: { struct HarbolString const *s = *(struct HarbolString **)v->data; vp_assert(s->len==(size_t)E[i].i, "strings have their length"); for( size_t j=0;j<s->len;j++ ) vp_assert(s->cstr[j]=="sy"[j], "strings have their text"); break; }
		case HarbolCfgType_Color: for( int j=0;j<4;j++ ) vp_assert(((uint8_t *)v->data)[j]==(j<E[i].i? 9+j : 0), "colours have their values"); break;
		}
		k++;
	}
	vp_assert(k==m->len, "no entry appears from nowhere");
}
void H_tokens(void){
	intmax_t iota[N+2] = {0}, en[N+2] = {0}, giota = 0, gen = 0;
	int at = -1, depth = 0;
	int up[N+2] = {-1};
	for( int k=0;k<N;k++ ) {
		struct ent *e = &E[ne]; e->at = at; e->i = 0;
		char nm[2] = {(char)('a'+k), 0};
		/* the name */
		put("'"); put(nm); strcpy(e->name, nm);
		switch( vp_pick(0, NAMES) ) {
		case 1: put("<enum>"); e->name[1] = (char)('0'+en[depth]++); e->name[2] = 0; break;
		case 2: put("<ENUM>"); e->name[1] = (char)('0'+gen++); e->name[2] = 0; break;
		}
		put("'");
		if( k==0 ) sep(); else put(" ");
		/* the value */
		switch( vp_pick(0, VALS) ) {
		case 0: put("iota"); e->tag = HarbolCfgType_Int; e->i = iota[depth]++; break;
		case 1: put("IOTA"); e->tag = HarbolCfgType_Int; e->i = giota++; break;
		case 2: put("{"); e->tag = HarbolCfgType_Map; at = ne; up[++depth] = ne; iota[depth] = en[depth] = 0; break;
		case 3: put("null"); e->tag = HarbolCfgType_Null; break;
		case 4: put("true"); e->tag = HarbolCfgType_Bool; e->i = 1; break;
		case 5: put("false"); e->tag = HarbolCfgType_Bool; break;
		case 6: put("\"sy\""); e->tag = HarbolCfgType_String; e->i = 2; break;
		case 7: { e->tag = HarbolCfgType_Color; e->i = (intmax_t)vp_pick(0, 4); put("c["); static char const *const n[] = {"9", "10", "0xb", "014"}; for( int j=0;j<e->i;j++ ) { put(n[j]); put(j%2? "," : " "); } put("]"); break; }
		case 8: put("0.5"); e->tag = HarbolCfgType_Float; break;
		}
		ne++;
		put(" ");
		while( depth>0 && vp_bool() ) { put("} "); depth--; at = up[depth]; }
	}
	while( depth>0 ) { put("}"); depth--; }
	vp_randmask = 0;
	struct HarbolMap *m = harbol_cfg_parse_cstr(T);
	vp_assert(m != NULL, "parsed");
	agree(m, -1);
	vp_reach("tokens");
	done(&m);
}

/* what a string holds apart from its math is kept; keys too */
void H_strings(void){
	char pre[N+1], post[N+1]; size_t n = 0; char X[60];
	bool const key = vp_bool();
	size_t const a = vp_pick(0, N), b = vp_pick(0, N);
	for( size_t i=0;i<a+b;i++ ) { char const c = (char)vp_u8(); vp_assume(c != 0 && c != '"' && c != '\\' && c != '\n' && c != '<' && c != '\''); if( i<a ) pre[i] = c; else post[i-a] = c; }
	char const *p;
	for( p=key? "\"" : "'k' \""; *p; p++ ) X[n++] = *p;
	for( size_t i=0;i<a;i++ ) X[n++] = pre[i];
	for( p="<math 7>"; *p; p++ ) X[n++] = *p;
	for( size_t i=0;i<b;i++ ) X[n++] = post[i];
	for( p=key? "\" true 'j'null" : "\" 'j'null"; *p; p++ ) X[n++] = *p;
	X[n] = 0;
	vp_randmask = 0;
	struct HarbolMap *m = harbol_cfg_parse_cstr(X);
	vp_assert(m != NULL && m->len==2, "parsed");
	char const *s; size_t len;
	if( key ) { s = (char const *)m->keys[0]; len = m->keylens[0]-1; vp_assert(((struct HarbolVariant *)m->datum[0])->tag==HarbolCfgType_Bool, "value of a computed name"); }
	else { s = harbol_cfg_get_cstr(m, "k", &len); }
	vp_assert(s != NULL && len>=a+b+1 && strlen(s)==len, "text of an entry");
	for( size_t i=0;i<a;i++ ) vp_assert(s[i]==pre[i], "what is before an expression is kept");
	for( size_t i=0;i<b;i++ ) vp_assert(s[len-b+i]==post[i], "what is behind an expression is kept");
	vp_assert(s[a]=='7', "the expression is replaced by its value");
	for( size_t i=a;i<len-b;i++ ) vp_assert((s[i]>='0' && s[i]<='9') || s[i]=='.', "the expression is replaced by a number");
	vp_reach("math");
	done(&m);
}

/* counters inside names: every occurrence is replaced, the counter goes on by one per name; two-digit values */
#ifndef LETK
#define LETK 0
#endif
void H_counters(void){
	char X[420], E[2][2*N+4]; size_t n = 0; char const *p;
	size_t const lead = vp_pick(0,1)*9;      /* no or 9 names before */
	size_t loc = lead, glob = lead;
	for( size_t i=0;i<lead;i++ ) for( p="'<enum>.<ENUM>'0 "; *p; p++ ) X[n++] = *p;
	for( int k=0;k<2;k++ ) {
		size_t m = 0; bool ul = false, ug = false;
		X[n++] = '\''; X[n++] = E[k][m++] = (char)('A'+k);
		for( size_t i=0;i<N;i++ ) {
			size_t const what = vp_pick(0,2), v = what==1 ? loc : glob;
			if( what==0 ) { char const c = k==LETK ? (char)vp_range('a', 'd') : 'b'; X[n++] = E[k][m++] = c; continue; }
			for( p=what==1 ? "<enum>" : "<ENUM>"; *p; p++ ) X[n++] = *p;
			if( v>9 ) E[k][m++] = (char)('0'+v/10);
			E[k][m++] = (char)('0'+v%10);
			if( what==1 ) ul = true; else ug = true;
		}
		loc += ul; glob += ug;
		E[k][m] = 0;
		for( p="' true "; *p; p++ ) X[n++] = *p;
	}
	X[n] = 0;
	vp_randmask = 0;
	struct HarbolMap *m = harbol_cfg_parse_cstr(X);
	vp_assert(m != NULL && m->len==lead+2, "every name is an entry");
	for( int k=0;k<2;k++ ) {
		size_t const l = strlen(E[k]);
		vp_assert(m->keylens[lead+k]==l+1, "counters in names are replaced");
		for( size_t i=0;i<=l;i++ ) vp_assert(((char *)m->keys[lead+k])[i]==E[k][i], "every counter in a name is replaced by its value");
		vp_assert(((struct HarbolVariant *)m->datum[lead+k])->tag==HarbolCfgType_Bool, "value of a counted name");
	}
	vp_reach("counted");
	done(&m);
}
