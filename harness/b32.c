// base32hex: encoding gives RFC 4648 text without padding, decoding gives the octets back; decoding arbitrary text is exact and safe
#include "vf.h"
#include "b32_encode.h"
#include "b32_decode.h"
static const char abc[] = "0123456789ABCDEFGHIJKLMNOPQRSTUV";
static int val(uint8_t c) { return ((c >= '0') & (c <= '9')) ? c - '0' : ((c >= 'A') & (c <= 'V')) ? c - 'A' + 10 : ((c >= 'a') & (c <= 'v')) ? c - 'a' + 10 : -1; }
static uint8_t lc(uint8_t c, int low) { return (uint8_t)(c + (unsigned)(low & (c >= 0x41) & (c <= 0x56)) * 32); }
void vf_main(void) {
#if MODE == 0
#ifdef LONG
	size_t n = 1 + vf_choose(N); uint8_t *b = malloc(n); for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(i * 73 + 9); { size_t at = vf_choose(3); at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1; b[at] = vf_u8(); if (at + 1 < n) b[at + 1] = vf_u8(); } uint8_t *keep
#else
	size_t n = 1 + vf_choose(N); uint8_t *b = vf_buf(n), *keep
#endif
		 = vf_dup(b, n); size_t full = (n * 8 + 4) / 5; size_t cap = full + vf_choose(3) - 1;
	char *t = malloc(cap); size_t k = base32_encode(t, cap, b, n);
	vf_assert(k == (cap < full ? cap : full), "length of the text"); vf_observe_bytes(t, k);
	for (size_t i = 0; i < k; i++) { unsigned v = 0; for (int j = 0; j < 5; j++) { size_t bit = i * 5 + (size_t)j; v = v << 1 | (bit < n * 8 ? b[bit / 8] >> (7 - bit % 8) & 1u : 0u); } vf_assert(t[i] == abc[v], "RFC 4648 extended hex characters"); }
	vf_assert(memcmp(b, keep, n) == 0, "input unchanged");
	if (cap < full) return;
	int low = (int)vf_choose(2); uint8_t *x = malloc(k); for (size_t i = 0; i < k; i++) x[i] = lc((uint8_t)t[i], low);
	char *o = malloc(n); size_t m = base32_decode(o, n, (char *)x, k);
	vf_assert(m == n && memcmp(o, b, n) == 0, "decoding gives the octets back");
	if (n == N) vf_witness("full");
#else
	size_t n = vf_choose(N + 1); char *t = (char *)vf_buf(n); size_t cap = vf_choose(n + 2); char *o = malloc(cap ? cap : 1);
	size_t m = base32_decode(o, cap, t, n); vf_observe(m);
	vf_assert(m == (size_t)-1 || m <= cap, "the output fits");
	size_t digits = 0; int bad = 0, padded = 0; for (size_t i = 0; i < n; i++) { if (t[i] == '=') { padded = 1; break; } if (val((uint8_t)t[i]) < 0) { bad = 1; break; } digits++; }
	if (padded) { vf_witness("padded"); return; }
	if (cap <= n * 5 / 8) { if (m != (size_t)-1) for (size_t i = 0; i < m; i++) vf_is_init(o + i, 1); return; }	// truncation may end before a bad character
	if (bad) { vf_assert(m == (size_t)-1, "a character outside the alphabet is rejected"); vf_witness("rejected"); return; }
	vf_assert(m == digits * 5 / 8, "number of octets"); vf_observe_bytes(o, m);
	for (size_t i = 0; i < m; i++) { unsigned v = 0; for (size_t j = i * 8; j < i * 8 + 8; j++) v = v << 1 | ((unsigned)val((uint8_t)t[j / 5]) >> (4 - j % 5) & 1u); vf_assert((uint8_t)o[i] == v, "octet"); }
	if (m) vf_witness("decoded");
#endif
}
