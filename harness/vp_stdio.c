/* one virtual input file and one virtual output file, for both worlds; compiled WITHOUT vp_wrap.h */
#include "vp.h"
#include <stdio.h>
#ifndef VP_FMAX
#define VP_FMAX 16
#endif
uint8_t vp_fdata[VP_FMAX+1]; size_t vp_flen, vp_fpos; bool vp_fmissing;
uint8_t vp_fout[VP_FMAX+1];  size_t vp_foutlen; bool vp_foutfull;
int vp_fopened;
static char in_handle, out_handle;
void *vp_fopen(char const *name, char const *mode){
	(void)name;
	if( vp_fmissing ) return NULL;
	vp_fopened++;
	if( mode[0]=='w' ) { vp_foutlen=0; return &out_handle; }
	vp_fpos=0; return &in_handle;
}
void *vp_infile(void){ vp_fopened++; vp_fpos=0; return &in_handle; }
void *vp_outfile(void){ vp_fopened++; vp_foutlen=0; return &out_handle; }
int vp_fclose(void *f){ vp_assert(f==&in_handle || f==&out_handle, "fclose of something that is no open file"); vp_fopened--; return 0; }
int vp_fseek(void *f, long off, int whence){
	vp_assert(f==&in_handle, "fseek");
	vp_fpos = (whence==SEEK_END? vp_flen : whence==SEEK_CUR? vp_fpos : 0) + (size_t)off; return 0;
}
long vp_ftell(void *f){ vp_assert(f==&in_handle, "ftell"); return (long)vp_fpos; }
void vp_rewind(void *f){ vp_assert(f==&in_handle, "rewind"); vp_fpos=0; }
size_t vp_fread(void *p, size_t sz, size_t n, void *f){
	vp_assert(f==&in_handle, "fread");
	size_t want = sz*n, k=0; uint8_t *q=p;
	for( size_t i=0;i<VP_FMAX;i++ ) if( i<want && vp_fpos < vp_flen ) { q[k++]=vp_fdata[vp_fpos++]; }
	return k/sz;
}
size_t vp_fwrite(void const *p, size_t sz, size_t n, void *f){
	vp_assert(f==&out_handle, "fwrite");
	size_t want = sz*n, k=0; uint8_t const *q=p;
	for( size_t i=0;i<VP_FMAX;i++ ) if( i<want && vp_foutlen<VP_FMAX && !vp_foutfull ) { vp_fout[vp_foutlen++]=q[i]; k++; }
	return k/sz;
}
int vp_fputs(char const *s, void *f){
	if( f==(void*)stderr ) return 1;
	vp_assert(f==&out_handle, "fputs");
	for( size_t i=0;i<VP_FMAX;i++ ) { if( s[i]==0 ) return 1; if( vp_foutlen<VP_FMAX ) vp_fout[vp_foutlen++]=(uint8_t)s[i]; }
	return 1;
}

#ifndef VP_CBMC
#include <stdarg.h>
int vp_fputc(int c, void *f){ if( f==(void*)stderr || f==(void*)stdout ) return c; vp_assert(f==&out_handle, "fputc"); if( vp_foutlen<VP_FMAX ) vp_fout[vp_foutlen++]=(uint8_t)c; return c; }
int vp_fgetc(void *f){ vp_assert(f==&in_handle, "fgetc"); return vp_fpos<vp_flen? vp_fdata[vp_fpos++] : -1; }
int vp_fflush(void *f){ (void)f; return 0; }
int vp_vfprintf(void *f, char const *fmt, va_list ap){
	char b[256]; int const n = vsnprintf(b, sizeof b, fmt, ap);
	if( f==(void*)stderr || f==(void*)stdout ) return n;
	vp_assert(f==&out_handle, "fprintf");
	vp_assert(n>=0 && (size_t)n<sizeof b, "bound on formatted text");
	for( int i=0;i<n;i++ ) if( vp_foutlen<VP_FMAX ) vp_fout[vp_foutlen++]=(uint8_t)b[i];
	return n;
}
int vp_fprintf(void *f, char const *fmt, ...){ va_list ap; va_start(ap, fmt); int const n = vp_vfprintf(f, fmt, ap); va_end(ap); return n; }
#endif
