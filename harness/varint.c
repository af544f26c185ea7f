// variable-length integers: little-endian groups of seven bits, the top bit says that more follow
#include "vf.h"
#include "libmy/varint.h"
static size_t ref_len(uint64_t v) { size_t n = 1; for (int i = 1; i < 10; i++) n += (v >> (7 * i)) != 0; return n; }
void vf_main(void) {
#if MODE == 64 || MODE == 32
	uint64_t v = MODE == 64 ? vf_u64() : vf_u32(); size_t n = (size_t)vf_concrete(ref_len(v));
	uint8_t *b = malloc(n);
	size_t k = MODE == 64 ? varint_encode64(b, v) : varint_encode32(b, (uint32_t)v);
	vf_assert(k == n && varint_length(v) == n, "octets announced"); vf_observe(n); vf_observe_bytes(b, n);
	for (size_t i = 0; i < n; i++) vf_assert(b[i] == (uint8_t)((v >> (7 * i) & 127) | (i + 1 < n ? 128 : 0)), "octet of the encoding");
	vf_assert(varint_length_packed(b, n) == n, "length told from the octets");
	if (n > 1) vf_assert(varint_length_packed(b, n - 1) == 0, "incomplete encoding");
	uint64_t x = 1; k = varint_decode64(b, &x); vf_assert(k == n && x == v, "decodes to itself");
	if (MODE == 32) { uint32_t y = 1; k = varint_decode32(b, &y); vf_assert(k == n && y == v, "decodes to itself"); }
	if (n == (MODE == 64 ? 10 : 5)) vf_witness("longest");
#else	// arbitrary octets
	size_t n = vf_choose(N + 1); uint8_t *b = vf_buf(n), *keep = vf_dup(b, n);
	size_t w = 0; for (size_t i = 0; i < n; i++) if (!(b[i] & 128)) { w = i + 1; break; }
	vf_assert(varint_length_packed(b, n) == w, "length of the first complete encoding"); vf_observe(w);
	if (!w && n < 10) { vf_witness("incomplete"); return; }
	if (w > 10) return;
	uint64_t r = 0; for (size_t i = 0; i < w; i++) r |= (uint64_t)(b[i] & 127) << (7 * i);
	uint64_t x = 7; size_t k = varint_decode64(b, &x); vf_assert(k == w, "octets decoded"); if (w) { vf_assert(x == r, "value"); vf_witness("value"); vf_observe(x); } else vf_witness("endless");
	if (w && w <= 5) { uint32_t y = 7; k = varint_decode32(b, &y); vf_assert(k == w && y == (uint32_t)r, "32-bit value"); }
	if (w == 0 || w > 5) { uint32_t y; vf_assert(varint_decode32(b, &y) == 0, "no 32-bit value"); }
	vf_assert(memcmp(b, keep, n) == 0, "input unchanged");
#endif
}
