// CRC-32C (reflected polynomial 0x82f63b78) of any octets at any alignment
#include "vf.h"
#include "crc32c.h"
uint32_t my_crc32c_slicing(const uint8_t *, size_t), my_crc32c_sse42(const uint8_t *, size_t); bool my_crc32c_sse42_supported(void);
#ifdef VF_ENGINE
extern unsigned vf_cpu_sse42;
#else
static unsigned vf_cpu_sse42;
#endif
static uint32_t sum(const uint8_t *p, size_t n) {
	switch (vf_choose(4)) {
	case 0: return my_crc32c_slicing(p, n);
	case 1: return my_crc32c_sse42_supported() ? my_crc32c_sse42(p, n) : my_crc32c(p, n);
	case 2: vf_cpu_sse42 = 0; break;
	}
	uint32_t r = my_crc32c(p, n); vf_assert(my_crc32c(p, n) == r, "the same again"); return r;
}
static uint32_t tab[256];
void vf_main(void) {
	for (uint32_t i = 0; i < 256; i++) { uint32_t c = i; for (int k = 0; k < 8; k++) c = c >> 1 ^ (c & 1 ? 0x82f63b78u : 0); tab[i] = c; }
#ifdef LONG
	static const uint16_t num[] = { 33, 40, 47, 48, 63, 64, 65, 71, 72, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2049, 4096, 4099 }; size_t n = num[vf_choose(24)], off = vf_choose(4);
#else
	size_t n = vf_choose(N + 1), off = vf_choose(4);
#endif
	uint8_t *w = malloc(off + n ? off + n : 1), *p = w + off;
#if ONE
#ifdef LONG
	size_t at = vf_choose(3); at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1;
#else
	size_t at = n ? vf_choose(n) : 0;
#endif
	 for (size_t i = 0; i < n; i++) p[i] = i == at ? vf_u8() : (uint8_t)(i * 37 + 11);
#else
	vf_fill(p, n);
#endif
	uint8_t *keep = vf_dup(p, n); uint32_t c = 0xffffffffu; for (size_t i = 0; i < n; i++) c = tab[(c ^ p[i]) & 255] ^ c >> 8;
	uint32_t r = sum(p, n); vf_observe(r); vf_assert(r == ~c, "CRC-32C"); vf_assert(memcmp(p, keep, n) == 0, "data unchanged"); if (n >= N) vf_witness("longest");
	static uint8_t nine[9]; memcpy(nine, "123456789", 9); vf_assert(my_crc32c(nine, 9) == 0xe3069283u, "the standard check value");
}
