// Diagnostics: line table, spans, labels, notes and their output.
//@src msg_span/msg_span.c str/str.c array/array.c lex/lex.c
//@rt vp_stdio.c
//@job D01 func=H_lines engine=sx unwind=1 defs=N=5,MODE=0,VP_STDIO,VP_FMAX=300
//@job D01 func=H_lines engine=sx unwind=1 defs=N=4,MODE=1,VP_STDIO,VP_FMAX=300
//@job D01 func=H_lines engine=sx unwind=1 tier=thorough timeout=600 defs=N=7,MODE=0,VP_STDIO,VP_FMAX=300
//@job D02 func=H_merge engine=sx unwind=1 defs=VP_STDIO,VP_FMAX=300
//@job D02 func=H_labels engine=sx unwind=1 defs=N=3,VP_STDIO,VP_FMAX=300
//@job D03 func=H_emit engine=sx unwind=1 defs=L=1,HEAD=1,VP_STDIO,VP_FMAX=300
//@job D03 engine=sx func=H_margin defs=VP_STDIO,VP_FMAX=300,L=1,HEAD=0
//@job D03 func=H_emit engine=sx unwind=1 defs=L=1,HEAD=0,VP_STDIO,VP_FMAX=300
//@job D03 func=H_emit engine=sx unwind=1 defs=L=2,HEAD=0,VP_STDIO,VP_FMAX=300
//@job D03 func=H_emit engine=sx unwind=1 tier=thorough timeout=800 defs=L=1,HEAD=2,VP_STDIO,VP_FMAX=300
#include "vp.h"
#include "msg_span/msg_span.h"
#ifndef N
#define N 4
#endif
#ifndef MODE
#define MODE 0
#endif
#ifndef HEAD
#define HEAD 2
#endif
#ifndef L
#define L 1
#endif
extern uint8_t vp_fdata[], vp_fout[]; extern size_t vp_flen, vp_foutlen; extern bool vp_fmissing; extern int vp_fopened;
void *vp_outfile(void);
static size_t slen(char const *s){ size_t n=0; while( s[n] ) n++; return n; }
static void is(struct HarbolString const *s, char const *t, size_t n){
	vp_assert(s != NULL, "there is such a line");
	vp_assert(s->len==n && (n==0 || s->cstr != NULL), "a line has its length");
	for( size_t i=0;i<n;i++ ) vp_assert(s->cstr[i]==t[i], "a line has its text");
	if( s->cstr != NULL ) vp_assert(s->cstr[n]==0, "a line is terminated");
}
#if defined(VP_STDIO)
void H_lines(void){
	char T[N+1], X[4*N+1]; size_t n = 0;
	for( size_t i=0;i<N;i++ ) T[i] = (char)vp_u8();
	T[N] = 0;
	size_t const len = slen(T);
	/* carriage returns are newlines, tabs are blanks */
	for( size_t i=0;i<len;i++ ) {
		if( T[i]=='\r' ) { X[n++] = '\n'; if( T[i+1]=='\n' ) i++; }
		else if( T[i]=='\t' ) { for( int k=0;k<4;k++ ) X[n++] = ' '; }
		else X[n++] = T[i];
	}
	X[n] = 0;
	struct HarbolMsgSpan m = {0};
	bool const drop = vp_bool(), miss = MODE==1 && vp_bool();
	bool r;
	if( MODE==1 ) {
		vp_fmissing = miss; vp_flen = len;
		for( size_t i=0;i<len;i++ ) vp_fdata[i] = (uint8_t)T[i];
		r = harbol_msg_span_init(&m, "file.c", true, drop);
		vp_assert(vp_fopened==0, "files are closed");
		vp_assert(!(r && miss), "a missing file is reported");
		vp_assert(r || miss || len==0, "a file with text is read");
	} else if( vp_bool() ) { m = harbol_msg_span_make(T, false, drop, &r); vp_assert(r, "text is taken"); }
	else { r = harbol_msg_span_init(&m, T, false, drop); vp_assert(r, "text is taken"); }
	if( r ) {
		size_t k = 0, at = 0;
		for( size_t i=0;i<=n;i++ ) if( X[i]=='\n' || X[i]==0 ) { is(harbol_msg_span_get_line(&m, k), X+at, i-at); at = i+1; k++; }
		vp_assert(harbol_msg_span_get_num_lines(&m)==k, "as many lines as the text has");
		uint64_t const out = vp_u64(); vp_assume(out>=k);
		vp_assert(harbol_msg_span_get_line(&m, out)==NULL, "there are no other lines");
		struct HarbolString const *c = harbol_msg_span_get_code(&m);
		if( drop ) vp_assert(c->cstr==NULL && c->len==0, "the source is dropped when asked"); else is(c, X, n);
		if( MODE==1 ) is(&m.src.filename, "file.c", 6);
		vp_reach("lines");
	}
	harbol_msg_span_clear(&m);
	vp_assert(harbol_msg_span_get_num_lines(&m)==0 && harbol_msg_span_get_line(&m, 0)==NULL, "nothing is left");
	harbol_msg_span_clear(&m);
	vp_assert(vp_live==0, "everything is released");
}
#endif
static uint32_t lo(uint32_t a, uint32_t b){ return a<b? a : b; }
static uint32_t hi(uint32_t a, uint32_t b){ return a<b? b : a; }
static struct HarbolTokenSpan span(void){ struct HarbolTokenSpan s; s.line_start = (uint32_t)vp_u64(); s.line_end = (uint32_t)vp_u64(); s.colm_start = (uint32_t)vp_u64(); s.colm_end = (uint32_t)vp_u64(); return s; }
void H_merge(void){
	struct HarbolTokenSpan const a = span(), b = span(), c = harbol_token_span_merge(a, b), d = harbol_token_span_merge(b, a), e = harbol_token_span_merge(a, a);
	vp_assert(c.line_start==lo(a.line_start, b.line_start), "first line");
	vp_assert(c.line_end==hi(a.line_end, b.line_end), "last line");
	vp_assert(c.colm_start==lo(a.colm_start, b.colm_start), "first column");
	vp_assert(c.colm_end==hi(a.colm_end, b.colm_end), "last column");
	vp_assert(c.line_start==d.line_start && c.line_end==d.line_end && c.colm_start==d.colm_start && c.colm_end==d.colm_end, "order does not matter");
	vp_assert(e.line_start==a.line_start && e.line_end==a.line_end && e.colm_start==a.colm_start && e.colm_end==a.colm_end, "merging a span with itself");
	vp_reach("merged");
}
/* text a message must have: colour, text, reset */
static size_t want(char *b, char const *col, char const *txt, size_t n){
	size_t k = 0;
	for( size_t i=0; col && col[i]; i++ ) b[k++] = col[i];
	for( size_t i=0;i<n;i++ ) b[k++] = txt[i];
	for( size_t i=0; col && COLOR_RESET[i]; i++ ) b[k++] = COLOR_RESET[i];
	return k;
}
static void word(char *w, size_t n){ for( size_t i=0;i<n;i++ ) { w[i] = (char)vp_u8(); vp_assume(w[i] != 0); } w[n] = 0; }
/* a history of labels and notes */
void H_labels(void){
	struct HarbolMsgSpan m; bool r;
	m = harbol_msg_span_make("x", false, false, &r);
	vp_assert(r, "made");
	struct { char txt[4]; size_t n; struct HarbolTokenSpan s; int32_t sym; char const *col, *sc; bool note; } X[N]; size_t nl = 0, nn = 0;
	for( int k=0;k<N;k++ ) {
		X[k].note = vp_bool(); X[k].n = vp_pick(1, 2); word(X[k].txt, X[k].n); X[k].col = vp_bool()? COLOR_RED : NULL;
		X[k].s = span(); X[k].sym = (int32_t)vp_u64(); X[k].sc = vp_bool()? COLOR_GREEN : NULL;
		/* plain text or formatted */
		if( X[k].note ) r = harbol_msg_span_add_note(&m, X[k].col, "%s", X[k].txt);
		else r = harbol_msg_span_add_label(&m, X[k].s, X[k].sc, X[k].sym, X[k].col, "%c%s", X[k].txt[0], X[k].txt+1);
		vp_assert(r, "added");
		if( X[k].note ) nn++; else nl++;
	}
	vp_assert(m.labels.len==nl && m.notes.len==nn, "as many labels and notes as were added");
	size_t a = 0, b = 0; char W[24];
	for( int k=0;k<N;k++ ) {
		size_t const n = want(W, X[k].col, X[k].txt, X[k].n);
		if( X[k].note ) is(&((struct HarbolString *)m.notes.table)[b++], W, n);
		else {
			struct HarbolMsgLabel const *l = &((struct HarbolMsgLabel *)m.labels.table)[a++];
			is(&l->msg, W, n);
			vp_assert(l->span.line_start==X[k].s.line_start && l->span.line_end==X[k].s.line_end && l->span.colm_start==X[k].s.colm_start && l->span.colm_end==X[k].s.colm_end, "a label keeps its span");
			vp_assert(l->sym==X[k].sym && l->sym_color==X[k].sc, "a label keeps its mark");
		}
	}
	vp_reach("labels");
	harbol_msg_span_clear(&m);
	vp_assert(vp_live==0, "everything is released");
}
#if defined(VP_STDIO)
/* what is printed */
static char W[VP_FMAX]; static size_t wn;
static void put(char const *s){ while( s && *s ) W[wn++] = *s++; }
static void num(size_t n){ char b[12]; int k = 0; do { b[k++] = (char)('0'+n%10); n /= 10; } while( n ); while( k ) W[wn++] = b[--k]; }
static void pad(size_t n){ while( n-- ) W[wn++] = ' '; }
static size_t digits(size_t n){ size_t k = 1; while( n>=10 ) { n /= 10; k++; } return k; }
void H_emit(void){
	char T[8]; struct HarbolMsgSpan m; bool r;
	/* three lines, the middle one empty */
	word(T, 2); T[2] = '\n'; T[3] = '\n'; word(T+4, 1);
	vp_assume(T[0] != '\n' && T[0] != '\r' && T[0] != '\t' && T[1] != '\n' && T[1] != '\r' && T[1] != '\t' && T[4] != '\n' && T[4] != '\r' && T[4] != '\t');
	m = harbol_msg_span_make(T, false, HEAD>0 && vp_bool(), &r);
	vp_assert(r, "made");
	struct HarbolTokenSpan S[L]; int32_t sym[L]; char const *sc[L]; char txt[L][2];
	size_t big = 0;
	for( int k=0;k<L;k++ ) {
		/* HEAD: everything but the span varies */
		if( HEAD==1 ) { S[k].line_start = 1; S[k].line_end = 3; S[k].colm_start = 1; S[k].colm_end = 3; }
		else if( k==0 ) {
			S[k].line_start = (uint32_t)vp_pick(0, 4); S[k].line_end = (uint32_t)vp_pick(0, 5);
			if( S[k].line_end==5 ) S[k].line_end = L==1? 4294967295u : 12; /* far behind the text */
			S[k].colm_start = (uint32_t)vp_pick(0, 2); S[k].colm_end = (uint32_t)vp_pick(0, 3);
		} else { S[k].line_start = (uint32_t)vp_pick(1, 3); S[k].line_end = 3; S[k].colm_start = 2; S[k].colm_end = (uint32_t)vp_pick(2, 3); }
		sym[k] = k==1 || vp_bool()? '^' : 0x261d; sc[k] = HEAD>0 && vp_bool()? COLOR_GREEN : NULL;
		word(txt[k], 1);
		vp_assert(harbol_msg_span_add_label(&m, S[k], sc[k], sym[k], NULL, "%s", txt[k]), "added");
		if( S[k].line_end>big ) big = S[k].line_end;
	}
	bool const note = HEAD==0? true : vp_bool();
	char nt[2]; word(nt, 1);
	if( note ) vp_assert(harbol_msg_span_add_note(&m, COLOR_YELLOW, "%s", nt), "added");
	size_t cnt = 41; bool const count = HEAD>0 && vp_bool();
	uint32_t const fl = 7, fc = 3; bool const hl = HEAD>0 && vp_bool(), hc = hl && vp_bool(), type = HEAD>0 && vp_bool(), code = type && vp_bool();
	void *out = vp_outfile();
	harbol_msg_span_emit_to_stream(&m, count? &cnt : NULL, out, hl? "f.c" : NULL, type? "error" : NULL, code? "E1" : NULL, COLOR_RED, hl? &fl : NULL, hc? &fc : NULL, "bad %i", 5);
	vp_assert(cnt==(count? 42u : 41u), "messages are counted");
	/* the same by the book */
	if( type ) { put(COLOR_RED); put("error"); if( code ) put("[E1]"); put(COLOR_RESET); put(": "); }
	put("bad 5");
	if( hl ) { put("\n--> f.c:7"); if( hc ) put(":3"); }
	put("\n");
	size_t const w = digits(big)+1;
	pad(w); put("|\n");
	for( int k=0;k<L;k++ ) {
		for( size_t l=S[k].line_start? S[k].line_start : 1; l<=3 && l<=S[k].line_end; l++ ) {
			num(l); pad(w-digits(l)); put("|");
			if( l==1 ) { W[wn++] = T[0]; W[wn++] = T[1]; }
			if( l==3 ) W[wn++] = T[4];
			put("\n");
		}
		pad(w); put("|"); pad(S[k].colm_start); put(sc[k]);
		for( uint32_t c=S[k].colm_start; c<S[k].colm_end; c++ ) put(sym[k]=='^'? "^" : "\xe2\x98\x9d");
		put(COLOR_RESET); put(" "); W[wn++] = txt[k][0]; put("\n");
	}
	if( note ) { pad(w); put("|\n"); pad(w); put(COLOR_YELLOW); W[wn++] = nt[0]; put(COLOR_RESET); put("\n"); }
	vp_assert(wn<VP_FMAX, "bound on the output");
	vp_assert(vp_foutlen==wn, "the output has its length");
	for( size_t i=0;i<wn;i++ ) vp_assert(vp_fout[i]==(uint8_t)W[i], "the output shows the lines, marks, labels and notes");
	vp_assert(m.labels.len==0 && m.notes.len==0, "what was printed is not printed again");
	vp_assert(harbol_msg_span_add_label(&m, S[0], NULL, '^', NULL, "again") && m.labels.len==1, "more can be added");
	vp_reach("emitted");
	harbol_msg_span_clear(&m);
	vp_assert(vp_live==0, "everything is released");
}
/* the margin is as wide as the largest line number of all labels needs, whichever label has it */
void H_margin(void){
	char T[26]; struct HarbolMsgSpan m; bool r;
	for( int i=0;i<12;i++ ) { T[2*i] = (char)vp_range('a', 'z'); T[2*i+1] = '\n'; }
	T[23] = 0;
	m = harbol_msg_span_make(T, false, false, &r);
	vp_assert(r, "made");
	static uint32_t const E[] = {1, 3, 9, 10, 12, 105};
	uint32_t s[3], e[3]; size_t big = 0; char txt[3][2];
	for( int k=0;k<3;k++ ) {
		e[k] = E[vp_pick(0, 5)]; s[k] = e[k]>12? 12 : e[k]; word(txt[k], 1);
		struct HarbolTokenSpan const S = { .line_start = s[k], .line_end = e[k], .colm_start = 0, .colm_end = 1 };
		vp_assert(harbol_msg_span_add_label(&m, S, NULL, '^', NULL, "%s", txt[k]), "added");
		if( e[k]>big ) big = e[k];
	}
	vp_assert(harbol_msg_span_add_note(&m, NULL, "n"), "added");
	void *out = vp_outfile();
	harbol_msg_span_emit_to_stream(&m, NULL, out, NULL, NULL, NULL, COLOR_RED, NULL, NULL, "x");
	put("x\n");
	size_t const w = digits(big)+1;
	pad(w); put("|\n");
	for( int k=0;k<3;k++ ) {
		num(s[k]); pad(w-digits(s[k])); put("|"); W[wn++] = T[2*(s[k]-1)]; put("\n");
		pad(w); put("|^"); put(COLOR_RESET); put(" "); W[wn++] = txt[k][0]; put("\n");
	}
	pad(w); put("|\n"); pad(w); put("n\n");
	vp_assert(wn<VP_FMAX && vp_foutlen==wn, "the output has its length");
	for( size_t i=0;i<wn;i++ ) vp_assert(vp_fout[i]==(uint8_t)W[i], "lines, marks and notes stand at one margin");
	vp_reach("emitted");
	harbol_msg_span_clear(&m);
	vp_assert(vp_live==0, "everything is released");
}
#endif
