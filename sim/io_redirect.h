/* Force-included before the repository's file-handling sources: their operating-system calls go to the simulator. */
#ifndef SIM_IO_REDIRECT_H
#define SIM_IO_REDIRECT_H
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
FILE* sim_fopen(const char* path, const char* mode);
int sim_fclose(FILE* f);
size_t sim_fread(void* p, size_t s, size_t n, FILE* f);
size_t sim_fwrite(const void* p, size_t s, size_t n, FILE* f);
int sim_fseek(FILE* f, long o, int w);
long sim_ftell(FILE* f);
void sim_rewind(FILE* f);
int sim_fgetpos(FILE* f, fpos_t* p);
int sim_fsetpos(FILE* f, const fpos_t* p);
int sim_fflush(FILE* f);
int sim_ferror(FILE* f);
int sim_feof(FILE* f);
void sim_clearerr(FILE* f);
int sim_fgetc(FILE* f);
int sim_fputc(int c, FILE* f);
int sim_setvbuf(FILE* f, char* b, int m, size_t n);
int sim_remove(const char* path);
void* sim_malloc(size_t n);
void* sim_calloc(size_t a, size_t b);
void* sim_realloc(void* p, size_t n);
void sim_free(void* p);
int sim_printf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#ifdef __cplusplus
}
#endif
#ifndef SIM_IO_IMPLEMENTATION
#define fopen sim_fopen
#define fclose sim_fclose
#define fread sim_fread
#define fwrite sim_fwrite
#define fseek sim_fseek
#define ftell sim_ftell
#define rewind sim_rewind
#define fgetpos sim_fgetpos
#define fsetpos sim_fsetpos
#define fflush sim_fflush
#undef ferror
#undef feof
#undef fgetc
#undef fputc
#undef getc
#undef putc
#define ferror sim_ferror
#define feof sim_feof
#define clearerr sim_clearerr
#define fgetc sim_fgetc
#define fputc sim_fputc
#define getc sim_fgetc
#define putc sim_fputc
#define setvbuf sim_setvbuf
#define remove sim_remove
#define malloc sim_malloc
#define calloc sim_calloc
#define realloc sim_realloc
#define free sim_free
#define printf sim_printf
#endif
#endif
