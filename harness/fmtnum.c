// number formatting: decimal without leading zeros, right-aligned in the buffer; hexadecimal of octets
#include "vf.h"
#include "libmy/my_format.h"
#include <inttypes.h>
static uint64_t p10(int k) { uint64_t r = 1; while (k--) r *= 10; return r; }
void vf_main(void) {
#if MODE == 0
	uint64_t v;
#if BITS == 16
	v = vf_u16();
#elif BITS == 32
	v = vf_u32();
#elif BITS == 64
	v = vf_u64();
#else	// around each power of ten and of two
	uint64_t c = vf_choose(2) ? p10((int)vf_choose(20)) : 1ull << vf_choose(64); v = c + (uint64_t)(int64_t)(int8_t)vf_u8();
#endif
	size_t sz = MAXD + 2; char *b = malloc(sz); memset(b, '#', sz); const char *st = NULL; int ask = (int)vf_choose(2);
	size_t n = my_uint64_to_str(v, b, sz, ask ? &st : NULL); vf_observe(n); vf_observe_bytes(b + sz - 1 - n, n);
	if (ask) vf_assert(st == b + sz - 1 - n, "start of the text");
	vf_assert(n >= 1 && n <= MAXD && b[sz - 1] == 0, "terminated, and at least one digit");
	for (size_t i = 0; i < n; i++) vf_assert((uint8_t)b[sz - 2 - i] == (uint8_t)('0' + v / p10((int)i) % 10), "digit");
	vf_assert(n == 1 || v >= p10((int)n - 1), "no leading zero"); vf_assert(n == 20 || v < p10((int)n), "no digit missing");
	for (size_t i = 0; i < sz - 1 - n; i++) vf_assert(b[i] == '#', "nothing before the text is touched");
	if (n == MAXD) vf_witness("longest");
#elif MODE == 1
	static const char lo[] = "0123456789abcdef", up[] = "0123456789ABCDEF";
#ifdef LONG
	size_t n = vf_choose(N + 1), sz = vf_choose(6); sz = sz < 4 ? 2 * n + sz : sz == 4 ? n + 1 : 1; if (!sz) sz = 1; uint8_t *b = malloc(n + 1); for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(i * 73 + 9); if (n) { b[n / 2] = vf_u8(); b[n - 1] = vf_u8(); }
#else
	size_t n = vf_choose(N + 1), sz = 1 + vf_choose(2 * N + 2); uint8_t *b = vf_buf(n);
#endif
	 int u = (int)vf_choose(2); char *d = malloc(sz);
	size_t k = my_bytes_to_hex_str(b, n, u, d, sz); size_t want = 2 * n <= sz - 1 ? n : (sz - 1) / 2;
	vf_assert(k == 2 * want && d[k] == 0, "length"); vf_observe_bytes(d, k);
	for (size_t i = 0; i < want; i++) vf_assert(d[2 * i] == (u ? up : lo)[b[i] >> 4] && d[2 * i + 1] == (u ? up : lo)[b[i] & 15], "hexadecimal digits");
	if (want < n) vf_witness("cut"); if (n == N && want == n) vf_witness("full");
#else
	uint16_t v = vf_u16(); int u = (int)vf_choose(2); char d[5], w[8]; size_t k = my_uint16_to_hex_str(v, u, d, sizeof d);
	snprintf(w, sizeof w, u ? "%04X" : "%04x", v); vf_assert(k == 4 && memcmp(d, w, 5) == 0, "four hexadecimal digits"); vf_observe_bytes(d, 4); vf_witness("done");
#endif
}
