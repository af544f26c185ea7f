// hexadecimal decoding, replacing strings, time arithmetic
#include "vf.h"
#include <assert.h>
#include "hex_decode.h"
#include "string_replace.h"
#include "my_time.h"
static int digit(uint8_t c) { if ((c >= '0') & (c <= '9')) return c - '0'; c |= 32; if ((c >= 'a') & (c <= 'f')) return c - 'a' + 10; return -1; }
static uint8_t *text(size_t max, size_t *n) { *n = vf_choose(max + 1); uint8_t *s = malloc(*n + 1); for (size_t i = 0; i < *n; i++) { s[i] = vf_u8(); vf_assume(s[i] != 0); } s[*n] = 0; return s; }
void vf_main(void) {
	size_t live = vf_live();
#if MODE == 0
	size_t n; char *s = (char *)text(N, &n); uint8_t *raw = (uint8_t *)1; size_t len = 77, good = n && n % 2 == 0;
	for (size_t i = 0; good && i < n; i++) if (digit((uint8_t)s[i]) < 0) good = 0;
	bool r = hex_decode(s, &raw, &len); vf_observe(r);
	vf_assert(r == good, "exactly pairs of hexadecimal digits are accepted");
	if (r && good) { vf_assert(len == n / 2, "the number of octets"); for (size_t i = 0; i < len; i++) { vf_observe(raw[i]); vf_assert(raw[i] == digit((uint8_t)s[2 * i]) * 16 + digit((uint8_t)s[2 * i + 1]), "the octets"); } free(raw); vf_witness("decoded"); }
	if (!r) vf_witness("refused");
	free(s);
#elif MODE == 1
	size_t n, k, l; char *s = (char *)text(N, &n), *a = (char *)text(3, &k), *b = (char *)text(2, &l); vf_assume(k > 0);
	char *r = string_replace(s, a, b); size_t m = strlen(r); vf_observe_bytes(r, m);
	// reference: from the left, without overlap
	char *w = malloc(n * 3 + 1); size_t wn = 0, hits = 0;
	for (size_t i = 0; i < n;) { int eq = i + k <= n; for (size_t j = 0; eq && j < k; j++) eq = s[i + j] == a[j]; if (eq) { memcpy(w + wn, b, l); wn += l; i += k; hits++; } else w[wn++] = s[i++]; }
	vf_assert(m == wn, "the length"); vf_assert(memcmp(r, w, m) == 0, "every occurrence is replaced and nothing else");
	if (hits > 1) vf_witness("twice"); if (!hits) vf_witness("none"); vf_observe(r != s); vf_assert(r != s, "a new string");
	free(r); free(w); free(s); free(a); free(b);
#else
	struct timespec a, b, b0; a.tv_sec = (time_t)(int64_t)vf_u64(); b.tv_sec = (time_t)(int64_t)vf_u64(); a.tv_nsec = (long)vf_u32(); b.tv_nsec = (long)vf_u32();
	int64_t lim = (int64_t)1 << 61; vf_assume((a.tv_nsec < 1000000000) & (b.tv_nsec < 1000000000) & (a.tv_sec < lim) & (a.tv_sec > -lim) & (b.tv_sec < lim) & (b.tv_sec > -lim)); b0 = b; struct timespec a0 = a;
	if (vf_choose(2)) {
		my_timespec_add(&a, &b); vf_observe((uint64_t)b.tv_sec); vf_observe((uint64_t)b.tv_nsec);
		vf_assert((b.tv_nsec >= 0) & (b.tv_nsec < 1000000000), "the sum is normalised");
		int64_t d = b.tv_sec - a.tv_sec - b0.tv_sec; vf_assert((d == 0) | (d == 1), "seconds"); vf_assert(b.tv_nsec + d * 1000000000 == a.tv_nsec + b0.tv_nsec, "the sum is exact"); if (d) vf_witness("carry");
	} else {
		my_timespec_sub(&a, &b); vf_observe((uint64_t)b.tv_sec); vf_observe((uint64_t)b.tv_nsec);
		vf_assert((b.tv_nsec >= 0) & (b.tv_nsec < 1000000000), "the difference is normalised");
		int64_t d = b0.tv_sec - a.tv_sec - b.tv_sec; vf_assert((d == 0) | (d == 1), "seconds"); vf_assert(b.tv_nsec - d * 1000000000 == b0.tv_nsec - a.tv_nsec, "the difference is exact"); if (d) vf_witness("borrow");
	}
	vf_assert((a.tv_sec == a0.tv_sec) & (a.tv_nsec == a0.tv_nsec), "the other operand is unchanged");
#endif
	vf_assert(vf_live() == live, "nothing is leaked");
}
