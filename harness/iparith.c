// lowest and highest address of a prefix, next address
#include "vf.h"
#include "libmy/ip_arith.h"
void vf_main(void) {
	size_t w = MODE == 4 ? 4 : 16; uint8_t *a = vf_buf(w), *keep = vf_dup(a, w), *lo = malloc(w), *hi = malloc(w); unsigned p = (unsigned)vf_choose(w * 8 + 1);
	if (MODE == 4) { ip4_lower(a, p, lo); ip4_upper(a, p, hi); } else { ip6_lower(a, p, lo); ip6_upper(a, p, hi); }
	vf_assert(memcmp(a, keep, w) == 0, "address unchanged"); vf_observe_bytes(lo, w); vf_observe_bytes(hi, w);
	for (unsigned i = 0; i < w; i++) { unsigned bits = p >= 8 * i + 8 ? 8 : p <= 8 * i ? 0 : p - 8 * i; uint8_t m = (uint8_t)(0xff00u >> bits);
		vf_assert(lo[i] == (uint8_t)(a[i] & m), "lowest address"); vf_assert(hi[i] == (uint8_t)(a[i] | (uint8_t)~m), "highest address"); }
	uint8_t *c = vf_dup(a, w); if (MODE == 4) ip4_incr(c); else ip6_incr(c);
	unsigned carry = 1; for (size_t i = w; i-- > 0;) { unsigned s = a[i] + carry; vf_assert(c[i] == (uint8_t)s, "next address"); carry = s >> 8; }
	vf_observe_bytes(c, w);
	// in place
	uint8_t *d = vf_dup(a, w); if (MODE == 4) ip4_lower(d, p, d); else ip6_lower(d, p, d); vf_assert(memcmp(d, lo, w) == 0, "in place");
	if (p == 0) vf_witness("all"); if (p == w * 8) vf_witness("host");
}
