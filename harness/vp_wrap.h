/* force-included before every translation unit of /repo and every harness */
#ifndef VP_WRAP_H
#define VP_WRAP_H
#define _GNU_SOURCE 1
#if defined(VP_CBMC) || defined(VP_SX)
#define __NO_CTYPE 1
#endif
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <time.h>
int vp_rand(void);
#define rand() vp_rand()
#define srand(x) ((void)(x))
#define time(x) ((time_t)0)
void *vp_malloc(size_t);
void *vp_calloc(size_t, size_t);
void *vp_realloc(void *, size_t);
void  vp_free(void *);
#define malloc  vp_malloc
#define calloc  vp_calloc
#define realloc vp_realloc
#define free    vp_free
#if defined(VP_CBMC) && defined(VP_LOOPMEM)
/* CBMC's own models of these write only part of a typed (non-byte) array when the length is symbolic */
void *vp_memcpy(void *, void const *, size_t);
void *vp_memmove(void *, void const *, size_t);
void *vp_memset(void *, int, size_t);
#define memcpy  vp_memcpy
#define memmove vp_memmove
#define memset  vp_memset
#endif
#ifdef VP_STDIO
void *vp_fopen(char const *, char const *);
int vp_fclose(void *); int vp_fseek(void *, long, int); long vp_ftell(void *); void vp_rewind(void *);
size_t vp_fread(void *, size_t, size_t, void *); size_t vp_fwrite(void const *, size_t, size_t, void *);
int vp_fputs(char const *, void *); int vp_fprintf(void *, char const *, ...);
#define fopen  vp_fopen
#define fclose vp_fclose
#define fseek  vp_fseek
#define ftell  vp_ftell
#define rewind vp_rewind
#define fread  vp_fread
#define fwrite vp_fwrite
#define fputs  vp_fputs
#ifndef VP_CBMC
#include <stdarg.h>
int vp_vfprintf(void *, char const *, va_list); int vp_fputc(int, void *); int vp_fgetc(void *); int vp_fflush(void *);
#define fprintf vp_fprintf
#define vfprintf vp_vfprintf
#undef putc
#undef getc
#define fputc vp_fputc
#define putc  vp_fputc
#define fgetc vp_fgetc
#define getc  vp_fgetc
#define fflush vp_fflush
#endif
#endif
#ifdef VP_PLUG
/* the file system & the dynamic linker seen by the plugin code */
#include <sys/types.h>
#include <sys/stat.h>
#include <dirent.h>
#include <dlfcn.h>
#include <unistd.h>
int vp_stat(char const *, struct stat *); char *vp_getcwd(char *, size_t);
void *vp_dlopen(char const *, int); void *vp_dlsym(void *, char const *); int vp_dlclose(void *);
void *vp_opendir(char const *); struct dirent *vp_readdir(void *); int vp_closedir(void *);
#define stat(p,b) vp_stat(p,b)
#define lstat(p,b) vp_stat(p,b)
#define getcwd(b,n) vp_getcwd(b,n)
#define dlopen vp_dlopen
#define dlsym vp_dlsym
#define dlclose vp_dlclose
#define opendir(p) vp_opendir(p)
#define readdir(d) vp_readdir(d)
#define closedir(d) vp_closedir(d)
#endif
#endif
