// P50: a rate limiter lets one event through per tick (decided by CBMC: IEEE doubles)
#ifdef VF_CBMC
#include "config.h"
#endif
#include "vf.h"
#include <time.h>
#undef HAVE_CLOCK_GETTIME
#undef HAVE_CLOCK_NANOSLEEP
#define HAVE_CLOCK_GETTIME 1
#define HAVE_CLOCK_NANOSLEEP 1
#ifdef VF_CBMC
unsigned char nondet_uchar(void);
static uint8_t vf_in_byte;
uint8_t vf_u8(void) { vf_in_byte = nondet_uchar(); return vf_in_byte; }
void vf_main(void);
#define vf_assume(c) __CPROVER_assume(c)
#undef vf_assert
#define vf_assert(c, m) __CPROVER_assert(c, m)
#define vf_witness(n) __CPROVER_assert(0, "WITNESS " n)
#define vf_observe(v) ((void)(v))
int main(void) { vf_main(); return 0; }
#endif
// the clock: it only goes on, by any amount
static struct timespec clk; static int sleeps; static struct timespec target;
#ifndef SPAN
#define SPAN 4
#endif
static int64_t ns(const struct timespec *t) { return (int64_t)t->tv_sec * 1000000000 + t->tv_nsec; }
static void later(void) { uint32_t s = vf_u8() & (SPAN - 1), n = vf_u32(); struct timespec t; t.tv_sec = clk.tv_sec + s; t.tv_nsec = n; vf_assume(n < 1000000000); vf_assume(t.tv_sec > clk.tv_sec || t.tv_nsec >= clk.tv_nsec); clk = t; }
static int vp_gettime(clockid_t c, struct timespec *t) { (void)c; *t = clk; return 0; }
static int vp_sleep(clockid_t c, int flags, const struct timespec *t, struct timespec *rem) {
	(void)c; (void)rem; vf_assert(flags == TIMER_ABSTIME, "until a point in time"); vf_assert(t->tv_nsec >= 0 && t->tv_nsec < 1000000000, "a proper time"); target = *t; sleeps++;
	if (t->tv_sec > clk.tv_sec || (t->tv_sec == clk.tv_sec && t->tv_nsec > clk.tv_nsec)) clk = *t;
	return 0;
}
#define clock_gettime(c, t) vp_gettime(c, t)
#define clock_nanosleep(c, f, t, r) vp_sleep(c, f, t, r)
#include "my_time.h"
static struct timespec per;                              // the last period computed
static void vp_period(double s, struct timespec *t) { my_timespec_from_double(s, t); per = *t; }
#define my_timespec_from_double(s, t) vp_period(s, t)
#include "libmy/my_rate.c"
void vf_main(void) {
	clk.tv_sec = 0; clk.tv_nsec = 0; later();
	struct my_rate *r = my_rate_init(RATE, FREQ); vf_assert(r != NULL, "made"); const long P = 1000000000 / RATE; struct timespec last = clk; int64_t start = 0; (void)start; bool slept = false, on = false;
	for (int k = 0; k < CALLS; k++) {
		struct timespec t0 = clk; sleeps = 0; my_rate_sleep(r); vf_observe((uint64_t)ns(&clk));
		int64_t p = P;
#if FREQ
		p = (int64_t)per.tv_sec * 1000000000 + per.tv_nsec; vf_assert(per.tv_sec >= 0 && per.tv_nsec >= 0 && per.tv_nsec < 1000000000 && p > 0, "the period is a time");
		if (!k) start = ns(&t0);
		if (k == 1) { int64_t el = ns(&t0) - start; if (el * RATE < 1900000000) vf_assert(p > P, "slower after too many events"); if (el * RATE > 2100000000) vf_assert(p < P, "faster after too few events"); }
		// (a ratio of 0.99 to 1.01 at a time, less rounding)
		vf_assert(p >= P - (k + 1) * (P / 50) - 1 && p <= P + (k + 1) * (P / 50) + 1, "the period is adjusted by a hundredth at a time");
#endif
		if (sleeps) { vf_assert(sleeps == 1, "one sleep"); slept = true; vf_assert(ns(&target) > ns(&t0), "no sleep once the tick is past"); vf_assert(ns(&target) - ns(&t0) <= (FREQ ? 2 * P + P / 20 : P), "no sleep beyond the next tick"); } else on = true;
#if !FREQ
		if (k) { uint64_t tl = (uint64_t)ns(&last) / P; vf_assert((uint64_t)ns(&clk) / P > tl, "one event per tick"); vf_assert(!sleeps || (uint64_t)ns(&t0) / P == tl, "no sleep once the tick is past"); }
		else vf_assert(sleeps == 1, "the first event waits for a tick");
#else
		if (k) vf_assert(ns(&clk) > ns(&last), "one event per tick");
#endif
		last = clk; later();
	}
	if (slept) vf_witness("slept"); if (on) vf_witness("went on");
	my_rate_destroy(&r); vf_assert(r == NULL, "gone"); my_rate_destroy(&r); my_rate_sleep(NULL);
}
