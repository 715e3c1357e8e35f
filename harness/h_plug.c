// Plugins: life of a handle, scanning of directories. The dynamic linker and the file system are
// arbitrary: every outcome of every call is chosen by the solver.
//@src plugins/plugins.c str/str.c
//@rt vp_stdio.c
//@job K01 func=H_life engine=sx unwind=1 defs=K=4,VP_STDIO,VP_PLUG,VP_FMAX=16
//@job K01 func=H_life engine=sx unwind=1 tier=thorough timeout=800 defs=K=5,VP_STDIO,VP_PLUG,VP_FMAX=16
//@job K02 func=H_scan engine=sx timeout=400 unwind=1 defs=NL=4,NS=0,VP_STDIO,VP_PLUG,VP_FMAX=300
//@job K02 func=H_scan engine=sx timeout=400 unwind=1 defs=NL=3,NS=1,VP_STDIO,VP_PLUG,VP_FMAX=300
//@job K02 func=H_scan engine=sx timeout=800 unwind=1 tier=thorough defs=NL=3,NS=2,VP_STDIO,VP_PLUG,VP_FMAX=300
//@job K02 func=H_scan engine=sx timeout=800 unwind=1 tier=thorough defs=NL=5,NS=0,VP_STDIO,VP_PLUG,VP_FMAX=300
#include "vp.h"
#include "plugins/plugins.h"
#ifndef K
#define K 3
#endif
#ifndef NL
#define NL 4
#endif
#ifndef NS
#define NS 1
#endif

static size_t slen(char const *s){ size_t n=0; while( s[n] ) n++; return n; }
static bool eqs(char const *a, char const *b){ size_t i=0; for( ; a[i] && a[i]==b[i]; i++ ); return a[i]==b[i]; }

/* ---- dynamic linker ---- */
static char H[2*K+2]; static int nh; static void *cur;      /* the open library, at most one */
static char OBJ; static void *lastsym; static bool lastopen;
void *vp_dlopen(char const *path, int flags){
	(void)flags;
	vp_assert(path != NULL && eqs(path, "lib/p.so"), "the library of the plugin is opened");
	vp_assert(cur==NULL, "a library is not opened over an open one");
	lastopen = vp_bool();
	if( !lastopen ) return NULL;
	return cur = &H[nh++];
}
void *vp_dlsym(void *h, char const *name){
	vp_assert(h != NULL && h==cur, "symbols are looked up in the open library");
	vp_assert(eqs(name, "obj"), "the symbol asked for is looked up");
	return lastsym = vp_bool() ? (void *)&OBJ : NULL;
}
int vp_dlclose(void *h){
	vp_assert(h != NULL && h==cur, "an open library is closed, once");
	cur = NULL;
	return vp_bool() ? 0 : 1;
}

/* ---- file system ---- */
static bool statok; static time_t statm; static bool scanning;
static int scan_stat(char const *, struct stat *);
int vp_stat(char const *path, struct stat *b){
	if( scanning ) return scan_stat(path, b);
	vp_assert(path != NULL && eqs(path, "lib/p.so"), "the file of the plugin is looked at");
	statok = vp_bool(); statm = (time_t)vp_u64();
	if( !statok ) return -1;
	*b = (struct stat){0};
	b->st_mtime = statm; b->st_mode = S_IFREG;
	return 0;
}

/* ---- life of a handle ---- */
static struct HarbolPlugin pl; static int nload, nunload; static bool wantreload; static int UD;
static void onload(struct HarbolPlugin *p, void *u, bool re){
	nload++;
	vp_assert(p==&pl && u==(void *)&UD && re==wantreload, "the load callback gets the plugin, the data & the cause");
	vp_assert(cur != NULL && p->dll==cur && p->path != NULL, "the plugin is open while the load callback runs");
}
static void onunload(struct HarbolPlugin *p, void *u, bool re){
	nunload++;
	vp_assert(p==&pl && u==(void *)&UD && re==wantreload, "the unload callback gets the plugin, the data & the cause");
	vp_assert(p->dll==cur, "the plugin is still open while the unload callback runs");
}
void H_life(void){
	bool haspath = false; time_t known = 0;
	for( int k=0;k<K;k++ ) {
		nload = nunload = 0;
		bool const cb = vp_bool();
		void *const before = cur; int const nh0 = nh;
		uint64_t const op = haspath||cur ? vp_pick(1,4) : vp_pick(0,4);
		if( op==0 ) {
			char path[] = "lib/p.so";
			wantreload = false; vp_alloc_may_fail = vp_bool(); vp_failed = 0;
			bool const r = harbol_plugin_load(&pl, path, cb ? onload : NULL, &UD);
			vp_alloc_may_fail = false;
			for( size_t i=0;i<sizeof path;i++ ) path[i] = 'x';
			if( r ) {
				vp_reach("loaded");
				vp_assert(lastopen && statok && vp_failed==0, "success means that everything was loaded");
				vp_assert(cur != NULL && pl.dll==cur && pl.path != NULL && eqs(pl.path, "lib/p.so"), "a loaded plugin is open & knows its path");
				vp_assert(pl.last_write==statm, "a loaded plugin knows the date of its file");
				haspath = true; known = statm;
			} else {
				vp_reach("refused");
				vp_assert(cur==NULL && pl.dll==NULL && pl.path==NULL, "a refused plugin leaves nothing open");
				vp_assert(pl.err==(lastopen ? HarbolPluginErrBadPath : HarbolPluginErrLibLoadFail), "a refused plugin has its error");
				vp_assert(!lastopen || !statok || vp_failed>0, "only failures refuse a plugin");
			}
			vp_assert(nload==(r && cb) && nunload==0, "loading runs the load callback once");
		} else if( op==1 ) {
			wantreload = false;
			harbol_plugin_clear(&pl, cb ? onunload : NULL, &UD);
			vp_assert(cur==NULL && pl.dll==NULL && pl.path==NULL, "clearing closes everything");
			vp_assert(nload==0, "clearing loads nothing");
			if( before ) { vp_reach("cleared"); vp_assert(nunload==cb, "clearing runs the unload callback once"); }
			else vp_assert(nunload<=cb, "clearing runs the unload callback at most once");
			vp_assert(vp_live==0, "clearing leaves no memory behind");
			haspath = false;
		} else if( op==2 ) {
			bool const r = harbol_plugin_changed(&pl);
			if( !haspath ) { vp_assert(!r && pl.err==HarbolPluginErrNoPath, "nothing loaded, nothing changed"); }
			else {
				vp_assert(r==(statok && statm != known), "a plugin changed when the date of its file did");
				if( statok ) known = statm;
				if( r ) vp_reach("changed");
			}
			vp_assert(cur==before && nh==nh0, "asking for changes leaves the library alone");
		} else if( op==3 ) {
			bool const cb2 = vp_bool();
			wantreload = true;
			bool const r = harbol_plugin_reload(&pl, cb ? onload : NULL, cb2 ? onunload : NULL, &UD);
			if( !haspath ) { vp_assert(!r && pl.err==HarbolPluginErrNoPath && nh==nh0, "nothing loaded, nothing reloaded"); }
			else {
				vp_reach("reloaded");
				vp_assert(r==lastopen, "reloading reports the outcome");
				vp_assert(pl.dll==cur && (cur != NULL)==r, "a reloaded plugin is open");
				vp_assert(nh==nh0+r, "reloading opens the library once");
				vp_assert(r || pl.err==HarbolPluginErrCantReload, "a failed reload has its error");
				vp_assert(pl.path != NULL && eqs(pl.path, "lib/p.so"), "a reloaded plugin knows its path");
				vp_assert(nunload==(before != NULL && cb2), "reloading unloads what was loaded, once");
				vp_assert(nload==(r && cb), "reloading loads once");
			}
		} else {
			void *const o = harbol_plugin_get_obj(&pl, "obj");
			if( cur==NULL ) vp_assert(o==NULL && pl.err==HarbolPluginErrNoLibLoaded, "nothing loaded, no objects");
			else { vp_assert(o==lastsym && pl.err==HarbolPluginErrNone, "objects come from the library"); vp_reach("object"); }
			vp_assert(cur==before && nh==nh0, "asking for objects leaves the library alone");
		}
		char const *const e = harbol_plugin_get_err(&pl);
		vp_assert(e != NULL && e[0] != 0, "every state has an error text");
	}
	wantreload = false;
	harbol_plugin_clear(&pl, onunload, &UD);
	vp_assert(cur==NULL && vp_live==0, "clearing releases everything");
}

/* ---- scanning of directories ---- */
/* /w/d holds "." & ".." and two entries with arbitrary names; a sub directory holds NS entries */
struct ent { char name[NL+1]; int kind; int seen; };        /* kind: 0 file, 1 directory, 2 can't be looked at */
static struct ent R[2], S[NS+1];
static struct { int pos; int open; int which; } D[4]; static int nd, nopen; static struct dirent DE;
static bool refuse[2], dots;
static char const *ROOT = "/w/d";
static size_t mk(char *b, struct ent const *sub, char const *name){
	size_t n = 0;
	for( size_t i=0; ROOT[i]; i++ ) b[n++] = ROOT[i];
	if( sub ) { b[n++] = '/'; for( size_t i=0; sub->name[i]; i++ ) b[n++] = sub->name[i]; }
	if( name ) { b[n++] = '/'; for( size_t i=0; name[i]; i++ ) b[n++] = name[i]; }
	b[n] = 0;
	return n;
}
static bool same(char const *p, char const *q, size_t n){           /* without branches on the bytes */
	unsigned d = 0;
	for( size_t i=0;i<=n;i++ ) { d |= (unsigned char)p[i] ^ (unsigned char)q[i]; }
	return d==0;
}
char *vp_getcwd(char *b, size_t n){
	if( vp_bool() ) return NULL;
	vp_assert(n>=3, "room for the directory");
	b[0]='/'; b[1]='w'; b[2]=0;
	return b;
}
void *vp_opendir(char const *p){
	char b[4*NL+16]; int w = -2;
	if( eqs(p, ROOT) ) w = -1;
	for( int i=0;i<2;i++ ) if( R[i].kind==1 && w==-2 ) { size_t const n = mk(b, &R[i], NULL); if( same(p, b, n) ) w = i; }
	vp_assert(w != -2, "only the directories of the tree are opened");
	if( refuse[w==-1 ? 0 : 1] ) return NULL;
	vp_assert(nd<4, "every directory is opened once");
	D[nd].pos = 0; D[nd].open = 1; D[nd].which = w; nopen++;
	return &D[nd++];
}
struct dirent *vp_readdir(void *h){
	int const i = (int)(((char *)h - (char *)D) / (long)sizeof D[0]);
	vp_assert(D[i].open, "open directories are read");
	int const lead = dots ? 2 : 0, n = (D[i].which==-1 ? 2 : NS), p = D[i].pos++;
	if( p >= n+2 ) { D[i].pos--; return NULL; }
	int const q = p-lead;
	if( q<0 || q>=n ) {             /* "." and ".." come first or last */
		int const dd = q<0 ? p : q-n;
		DE.d_name[0] = '.'; DE.d_name[1] = dd==0 ? 0 : '.'; DE.d_name[2] = 0;
		return &DE;
	}
	struct ent const *const e = D[i].which==-1 ? &R[q] : &S[q];
	for( size_t j=0;j<=NL;j++ ) DE.d_name[j] = e->name[j];
	return &DE;
}
int vp_closedir(void *h){
	int const i = (int)(((char *)h - (char *)D) / (long)sizeof D[0]);
	vp_assert(D[i].open, "directories are closed once");
	D[i].open = 0; nopen--;
	return 0;
}
static int scan_stat(char const *p, struct stat *b){
	char q[4*NL+16]; struct ent const *e = NULL;
	*b = (struct stat){0};
	size_t n = slen(p);
	if( n>=2 && p[n-1]=='.' && (p[n-2]=='/' || (p[n-2]=='.' && p[n-3]=='/')) ) { b->st_mode = S_IFDIR; return 0; }
	for( int i=0;i<2 && !e;i++ ) { size_t const m = mk(q, NULL, R[i].name); if( n==m && same(p, q, m) ) e = &R[i]; }
	for( int i=0;i<2 && !e;i++ ) if( R[i].kind==1 )
		for( int j=0;j<NS && !e;j++ ) { size_t const m = mk(q, &R[i], S[j].name); if( n==m && same(p, q, m) ) e = &S[j]; }
	vp_assert(e != NULL, "only the entries of the tree are looked at");
	if( e->kind==2 ) return -1;
	b->st_mode = e->kind==1 ? S_IFDIR : S_IFREG;
	return 0;
}
static int PSEEN[2][NS+1]; static int total; static char const *EXT;
static void ondir(char const path[], char const name[], void *u){
	char q[4*NL+16]; bool found = false; size_t const n = slen(path);
	vp_assert(u==(void *)&UD, "the callback gets the data");
	for( int i=0;i<2 && !found;i++ ) {
		size_t const m = mk(q, NULL, R[i].name);
		if( n==m && same(path, q, m) ) { R[i].seen++; found = true; vp_assert(eqs(name, R[i].name), "the callback gets the name of the file"); }
	}
	for( int i=0;i<2 && !found;i++ ) if( R[i].kind==1 )
		for( int j=0;j<NS && !found;j++ ) {
			size_t const m = mk(q, &R[i], S[j].name);
			if( n==m && same(path, q, m) ) { PSEEN[i][j]++; found = true; vp_assert(eqs(name, S[j].name), "the callback gets the name of the file"); }
		}
	vp_assert(found, "the callback gets the path of an entry of the tree");
}
static bool ends(char const *name){
	size_t const n = slen(name), e = slen(EXT);
	if( n<e+1 ) return false;
	unsigned d = (unsigned char)name[n-e-1] ^ '.';
	for( size_t i=0;i<e;i++ ) d |= (unsigned char)name[n-e+i] ^ (unsigned char)EXT[i];
	return d==0;
}
static void mkname(struct ent *e, int kmax){
	size_t const n = (size_t)vp_pick(1, NL);
	for( size_t i=0;i<n;i++ ) { e->name[i] = (char)vp_u8(); vp_assume(e->name[i] != 0); vp_assume(e->name[i] != '/'); vp_assume(e->name[i] != 92); }
	e->name[n] = 0;
	if( n==1 ) vp_assume(e->name[0] != '.');
	if( n==2 ) vp_assume(((unsigned char)e->name[0] ^ '.') | ((unsigned char)e->name[1] ^ '.'));
	e->kind = (int)vp_pick(0, kmax);
	if( kmax==1 && e->kind==1 ) e->kind = 2;
}
void H_scan(void){
	for( int i=0;i<2;i++ ) mkname(&R[i], 2);
	for( int j=0;j<NS;j++ ) mkname(&S[j], 1);
	vp_assume(slen(R[0].name) != slen(R[1].name) || !same(R[0].name, R[1].name, slen(R[0].name)));
	if( NS==0 || vp_bool() ) dots = true;
	refuse[0] = vp_bool(); if( NS ) refuse[1] = vp_bool();
	bool const custom = vp_bool();
	EXT = custom ? "x" : LIB_EXT;
	scanning = true;
	bool const r = harbol_plugin_dir_open("d", ondir, &UD, custom ? "x" : NULL);
	scanning = false;
	vp_assert(nopen==0, "every opened directory is closed");
	vp_assert(vp_live==0, "scanning leaves no memory behind");
	bool const ran = nd>0;
	vp_assert(!ran || r, "a scanned directory is a success");
	for( int i=0;i<2;i++ ) {
		int const want = ran & (R[i].kind==0) & ends(R[i].name);
		vp_assert(R[i].seen==want, "every file with the extension is handed out once, nothing else is");
		if( want ) vp_reach("file");
		for( int j=0;j<NS;j++ ) {
			int const w2 = ran & (R[i].kind==1) & (R[i].name[0] != '.') & !refuse[1] & (S[j].kind==0) & ends(S[j].name);
			vp_assert(PSEEN[i][j]==w2, "every file of a sub directory is handed out once");
#if NS
			if( w2 ) vp_reach("sub file");
#endif
		}
	}
}
