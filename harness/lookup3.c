// Bob Jenkins' lookup3: the value depends on the octets of the key, their number and the seeds only
#include "vf.h"
#include "libmy/lookup3.h"
static uint32_t rot(uint32_t x, int k) { return x << k | x >> (32 - k); }
static void ref(const uint8_t *k, size_t n, int big, uint32_t *pc, uint32_t *pb) {
	uint32_t s[3]; s[0] = s[1] = 0xdeadbeef + (uint32_t)n + *pc; s[2] = s[0] + *pb;
	for (size_t at = 0; at < n; at += 12) {
		for (int i = 0; i < 3; i++) { uint8_t b[4]; for (size_t j = 0; j < 4; j++) { size_t p = at + (size_t)i * 4 + j; b[j] = p < n ? k[p] : 0; }
			s[i] += big ? (uint32_t)b[0] << 24 | (uint32_t)b[1] << 16 | (uint32_t)b[2] << 8 | b[3] : (uint32_t)b[3] << 24 | (uint32_t)b[2] << 16 | (uint32_t)b[1] << 8 | b[0]; }
		uint32_t a = s[0], b = s[1], c = s[2];
		if (at + 12 < n) { static const int r[6] = { 4, 6, 8, 16, 19, 4 };
			for (int i = 0; i < 2; i++) { a -= c; a ^= rot(c, r[3 * i]); c += b; b -= a; b ^= rot(a, r[3 * i + 1]); a += c; c -= b; c ^= rot(b, r[3 * i + 2]); b += a; }
		} else { c ^= b; c -= rot(b, 14); a ^= c; a -= rot(c, 11); b ^= a; b -= rot(a, 25); c ^= b; c -= rot(b, 16); a ^= c; a -= rot(c, 4); b ^= a; b -= rot(a, 14); c ^= b; c -= rot(b, 24); }
		s[0] = a; s[1] = b; s[2] = c;
	}
	*pc = s[2]; *pb = s[1];
}
void vf_main(void) {
#ifdef LONG
	size_t n = 27 + vf_choose(N - 26), off = vf_choose(4); uint32_t s1 = (uint32_t)vf_choose(2) * 0x89abcdef, s2 = (uint32_t)vf_choose(2) * 0x76543210, c, b; 
#define OCT(i) (i == off + n - 1 || i < off || i >= off + n ? vf_u8() : (uint8_t)(i * 91 + 5))
#else
#define OCT(i) vf_u8()
	size_t n = vf_choose(N + 1), off = vf_choose(4); uint32_t s1 = vf_u32(), s2 = vf_u32(), c, b;
#endif
	// the key lies at any offset in its words; the rest of the words is arbitrary
	size_t words = (off + n + 3) / 4; uint8_t *w = malloc(words ? words * 4 : 4); for (size_t i = 0; i < words * 4; i++) w[i] = OCT(i); uint8_t *k = w + off, *keep = vf_dup(w, words * 4);
	uint32_t zero = 0; c = s1; b = 0; ref(k, n, 0, &c, &b);
	uint32_t h = my_hashlittle(k, n, s1); vf_observe(h); vf_assert(h == c, "hashlittle");
	uint32_t x = s1, y = 0; my_hashlittle2(k, n, &x, &y); vf_assert(x == c && y == b, "hashlittle2 without a second seed");
	c = s1; b = s2; ref(k, n, 0, &c, &b); x = s1; y = s2; my_hashlittle2(k, n, &x, &y); vf_assert(x == c && y == b, "hashlittle2"); vf_observe(x); vf_observe(y);
	c = s1; b = 0; ref(k, n, 1, &c, &b); h = my_hashbig(k, n, s1); vf_assert(h == c, "hashbig"); vf_observe(h);
	if (n % 4 == 0 && off == 0) {
		c = s1; b = 0; ref(k, n, 0, &c, &b); vf_assert(my_hashword((uint32_t *)k, n / 4, s1) == c, "hashword");
		c = s1; b = s2; ref(k, n, 0, &c, &b); x = s1; y = s2; my_hashword2((uint32_t *)k, n / 4, &x, &y); vf_assert(x == c && y == b, "hashword2"); vf_witness("words"); }
	vf_assert(memcmp(w, keep, words * 4) == 0, "key unchanged"); (void)zero;
	if (n == N) vf_witness("longest");
}
