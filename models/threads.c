// The scheduler.  Library sources are compiled with -fsanitize=thread for its calls before each memory access; here
// those calls are the scheduling points.  Whether to switch at one is an input, at most `preemptions` times.
#include "threads.h"
#include <errno.h>
static int on, left, me, done[2]; static void (*other)(void *); static void *otherarg;
static const char *sh[8]; static size_t shn[8]; static int nsh, all; int vf_switched, vf_points;
void vf_shared(const void *p, size_t n) { if (nsh < 8) { sh[nsh] = p; shn[nsh++] = n; } }
void vf_shared_all(void) { all = 1; }
int vf_other_done(void) { return done[!me]; }
int vf_thread(void) { return me; }
static void hand(void) { me = !me; vf_co_switch(); }
static void run1(void *a) { (void)a; other(otherarg); done[me] = 1; for (;;) hand(); }
void vf_parallel(void (*f0)(void *), void *a0, void (*f1)(void *), void *a1, int preemptions) {
	on = 1; left = preemptions; me = 0; done[0] = done[1] = 0; other = f1; otherarg = a1; vf_switched = vf_points = 0;
	vf_co_start(run1, 0);
	if (vf_choose(2)) hand();
	f0(a0); done[0] = 1;
	while (!done[1]) hand();
	on = 0; nsh = 0; all = 0;
}
static int hot(const void *p, size_t n, int w) {
	if (all) return 1;
	if (w) for (int i = 0; i < nsh; i++) if ((const char *)p < sh[i] + shn[i] && (const char *)p + n > sh[i]) return 1;
	return vf_is_static(p);
}
void vf_point(void) {
	if (!on || left <= 0 || done[!me]) return;
	vf_points++;
	if (vf_choose(2)) { left--; vf_switched++; hand(); }
}
static void acc(const void *p, size_t n) { if (on && left > 0 && !done[!me] && hot(p, n, 0)) vf_point(); }
static void accw(const void *p, size_t n) { if (on && left > 0 && !done[!me] && hot(p, n, 1)) vf_point(); }
#define RW(n) void __tsan_read##n(void *p) { acc(p, n); } void __tsan_write##n(void *p) { accw(p, n); } void __tsan_read_write##n(void *p) { accw(p, n); } void __tsan_volatile_read##n(void *p) { acc(p, n); } void __tsan_volatile_write##n(void *p) { accw(p, n); } \
	void __tsan_unaligned_read##n(void *p) { acc(p, n); } void __tsan_unaligned_write##n(void *p) { accw(p, n); } void __tsan_unaligned_read_write##n(void *p) { accw(p, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { acc(p, n); } void __tsan_write_range(void *p, size_t n) { accw(p, n); }
void __tsan_vptr_update(void *p, void *q) { acc(p, 8); } void __tsan_vptr_read(void *p) { acc(p, 8); }
void __tsan_init(void) {} void __tsan_func_entry(void *p) { (void)p; } void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {} void __tsan_ignore_thread_end(void) {}
// block operations happen octet by octet
void *vf_t_memcpy(void *d, const void *s, size_t n) { char *a = d; const char *b = s; for (size_t i = 0; i < n; i++) { acc(b + i, 1); char c = b[i]; accw(a + i, 1); a[i] = c; } return d; }
void *vf_t_memmove(void *d, const void *s, size_t n) { acc(s, n); accw(d, n); return memmove(d, s, n); }
void *vf_t_memset(void *d, int c, size_t n) { char *a = d; for (size_t i = 0; i < n; i++) { accw(a + i, 1); a[i] = c; } return d; }
void *__tsan_memcpy(void *d, const void *s, size_t n) { return vf_t_memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { return vf_t_memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { return vf_t_memset(d, c, n); }
#define AT(b, T) \
	T __tsan_atomic##b##_load(const volatile T *p, int o) { acc((const void *)p, b / 8); return *p; } \
	void __tsan_atomic##b##_store(volatile T *p, T v, int o) { accw((const void *)p, b / 8); *p = v; } \
	T __tsan_atomic##b##_exchange(volatile T *p, T v, int o) { accw((const void *)p, b / 8); T r = *p; *p = v; return r; } \
	T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int o) { accw((const void *)p, b / 8); T r = *p; *p = r + v; return r; } \
	T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int o) { accw((const void *)p, b / 8); T r = *p; *p = r - v; return r; } \
	T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int o) { accw((const void *)p, b / 8); T r = *p; *p = r & v; return r; } \
	T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int o) { accw((const void *)p, b / 8); T r = *p; *p = r | v; return r; } \
	int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *c, T v, int o, int q) { accw((const void *)p, b / 8); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
	int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *c, T v, int o, int q) { accw((const void *)p, b / 8); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
	T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T c, T v, int o, int q) { accw((const void *)p, b / 8); T r = *p; if (r == c) *p = v; return r; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { (void)o; } void __tsan_atomic_signal_fence(int o) { (void)o; }
// mutexes: the first word says who holds one (thread + 1)
int vf_t_mutex_init(int *m, const void *a) { (void)a; *m = 0; return 0; }
int vf_t_mutex_destroy(int *m) { vf_assert(*m == 0, "a locked mutex is not destroyed"); return 0; }
int vf_t_mutex_lock(int *m) {
	vf_point();
	vf_assert(*m != me + 1, "a thread does not lock a mutex it holds");
	while (*m) { vf_assert(on && !done[!me], "no mutex is left locked"); hand(); }
	*m = me + 1; return 0;
}
int vf_t_mutex_trylock(int *m) { vf_point(); if (*m) return EBUSY; *m = me + 1; return 0; }
int vf_t_mutex_unlock(int *m) { vf_assert(*m == me + 1, "a mutex is unlocked by its holder"); *m = 0; vf_point(); return 0; }
int vf_t_once(int *o, void (*f)(void)) { vf_point(); while (*o == 1) hand(); if (!*o) { *o = 1; f(); *o = 2; } return 0; }
// library functions with state of their own
char *vf_t_strtok(char *s, const char *d) { vf_point(); char *r = strtok(s, d); vf_point(); return r; }
