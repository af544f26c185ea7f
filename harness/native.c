// Native side of vf.h: replays one input vector against the real build.
#define _GNU_SOURCE 1
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <malloc.h>

static uint8_t in[1 << 16]; static size_t nin, pos; static size_t live; static unsigned char fillv = 0xA5;
static int started;
uint8_t vf_u8(void) { if (pos < nin) return in[pos++]; pos++; return 0; }
static void fin(const char *k, const char *m, int rc) { printf("VF-%s %s\n", k, m); fflush(stdout); _exit(rc); }
void vf_assume(int c) { if (!c) fin("ASSUME", "", 77); }
void vf_assert_(int c, const char *m) { if (!c) fin("ASSERT", m, 99); }
void vf_witness(const char *n) { (void)n; }
void vf_observe(uint64_t v) { printf("OBS %llx\n", (unsigned long long)v); }
size_t vf_live(void) { return live; }
#if defined(__has_feature)
# if __has_feature(memory_sanitizer)
#  include <sanitizer/msan_interface.h>
#  define HAVE_MSAN 1
# endif
#endif
int vf_is_init(const void *p, size_t n) {
#ifdef HAVE_MSAN
	return __msan_test_shadow(p, n) == -1;
#else
	(void)p; (void)n; return 1;
#endif
}
uint64_t vf_concrete(uint64_t v) { return v; }
int vf_in_engine(void) { return 0; }
void vf_readonly(void *p, int on) { (void)p; (void)on; }
#if defined(__has_feature) && __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
size_t vf_objleft(const void *p) { char nm[64]; void *a = NULL; size_t n = 0; __asan_locate_address((void *)p, nm, sizeof nm, &a, &n); return a && (size_t)((const char *)p - (char *)a) <= n ? n - (size_t)((const char *)p - (char *)a) : 0; }
#endif

// two threads that take turns
#include <pthread.h>
#include <semaphore.h>
static sem_t turn[2]; static void (*cof)(void *); static void *coa; static __thread int whoami;
static void *corun(void *a) { (void)a; whoami = 1; while (sem_wait(&turn[1])) ; cof(coa); return NULL; }
void vf_co_start(void (*f)(void *), void *a) { pthread_t t; cof = f; coa = a; sem_init(&turn[0], 0, 0); sem_init(&turn[1], 0, 0); if (pthread_create(&t, NULL, corun, NULL)) _exit(3); }
void vf_co_switch(void) { sem_post(&turn[!whoami]); while (sem_wait(&turn[whoami])) ; }
extern char __data_start[], _end[];
int vf_is_static(const void *p) { return (const char *)p >= __data_start && (const char *)p < _end; }

void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *); char *__real_strdup(const char *); char *__real_strndup(const char *, size_t);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) live++; return p; }
void *__wrap_calloc(size_t n, size_t m) { void *p = __real_calloc(n, m); if (p) live++; return p; }
void *__wrap_realloc(void *q, size_t n) { void *p = __real_realloc(q, n); if (!q && p) live++; return p; }
void __wrap_free(void *p) { if (p) live--; __real_free(p); }
char *__wrap_strdup(const char *s) { char *p = __real_strdup(s); if (p) live++; return p; }
char *__wrap_strndup(const char *s, size_t n) { char *p = __real_strndup(s, n); if (p) live++; return p; }

static const char *fdata; static size_t flen;
void vf_set_file(const char *d, size_t n) { fdata = d; flen = n; }
FILE *__real_fopen(const char *, const char *); int __real_fclose(FILE *); ssize_t __real_getline(char **, size_t *, FILE *);
FILE *__wrap_fopen(const char *p, const char *m) { (void)p; (void)m; if (!started) return __real_fopen(p, m); if (!fdata) return NULL; FILE *f = tmpfile(); if (!f) return NULL; fwrite(fdata, 1, flen, f); rewind(f); live++; return f; }
int __wrap_fclose(FILE *f) { if (started) live--; return __real_fclose(f); }
ssize_t __real___getdelim(char **, size_t *, int, FILE *);
ssize_t __wrap___getdelim(char **lp, size_t *np, int c, FILE *f) { char *o = *lp; ssize_t r = __real___getdelim(lp, np, c, f); if (!o && *lp) live++; return r; }
ssize_t __wrap_getline(char **lp, size_t *np, FILE *f) { char *o = *lp; ssize_t r = __real_getline(lp, np, f); if (!o && *lp) live++; return r; }
static char *mb; static size_t ml;
FILE *vf_mem_file(void) { return open_memstream(&mb, &ml); }
char *vf_mem_done(FILE *f) { __real_fclose(f); char *r = __wrap_malloc(ml + 1); memcpy(r, mb, ml); r[ml] = 0; __real_free(mb); return r; }

void vf_main(void);
int main(int argc, char **argv) {
	FILE *f = argc > 1 ? fopen(argv[1], "r") : NULL; unsigned b;
	if (!f) return 2;
	while (nin < sizeof in && fscanf(f, "%2x", &b) == 1) in[nin++] = b;
	fclose(f); started = 1; (void)fillv;
	setvbuf(stdout, NULL, _IOFBF, 1 << 16);
	vf_main();
	fin("OK", "", 0);
	return 0;
}
