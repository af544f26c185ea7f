// seconds as a floating-point number to a timespec and back (decided by CBMC: IEEE doubles)
#ifdef VF_CBMC
#include "config.h"
#endif
#include "vf.h"
#include "my_time.h"
#ifdef VF_CBMC
unsigned char nondet_uchar(void);
static uint8_t vf_in_byte;
uint8_t vf_u8(void) { vf_in_byte = nondet_uchar(); return vf_in_byte; }
void vf_main(void);
#define vf_assume(c) __CPROVER_assume(c)
#undef vf_assert
#define vf_assert(c, m) __CPROVER_assert(c, m)
#define vf_witness(n) __CPROVER_assert(0, "WITNESS " n)
#define vf_observe(v) ((void)(v))
int main(void) { vf_main(); return 0; }
#endif
void vf_main(void) {
#if MODE == 0
	uint64_t v = vf_u64(); double s; memcpy(&s, &v, 8); vf_assume(s >= 0 && s < 9007199254740992.0);
#else		// a multiple of 1/1024: the nanoseconds can be computed with integers
	uint64_t us = vf_u64(); vf_assume(us < (uint64_t)1 << 42); int64_t sec = (int64_t)us; unsigned k = vf_u16(); vf_assume(k < 1024 && k % KM == 0); double s = (double)sec + k / 1024.0;
#endif
	struct timespec t; my_timespec_from_double(s, &t); vf_observe((uint64_t)t.tv_sec); vf_observe((uint64_t)t.tv_nsec);
	vf_assert((double)t.tv_sec <= s && s - (double)t.tv_sec < 1.0, "the whole seconds");
	vf_assert(t.tv_nsec >= 0 && t.tv_nsec < 1000000000, "normalised");
#if MODE == 1
	vf_assert(t.tv_sec == sec, "the seconds"); vf_assert(t.tv_nsec == (long)(k * (uint64_t)1000000000 >> 10), "the nanoseconds"); double b = my_timespec_to_double(&t); vf_assert(b <= s && b > s - 1, "and back");
	
#endif
	if (t.tv_sec > INT32_MAX) vf_witness("beyond 2038");
	if (t.tv_nsec > 900000000) vf_witness("nearly a second");
}
