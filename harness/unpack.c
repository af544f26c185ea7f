// unpack_name against a direct reading of RFC 1035 4.1.4, on every packet of up to N octets.
#include "vf.h"
#include "wdns.h"
// Reference decoder.  Returns the length of the expanded name or 0 when the encoding is not acceptable.
// A pointer must lead to an earlier octet than the pointer itself.
static size_t ref(const uint8_t *p, size_t len, size_t off, uint8_t *out, int *jumped) {
	size_t n = 0, pos = off;
	for (;;) {
		if (pos >= len) return 0;
		uint8_t c = p[pos];
		if (c == 0) { if (n + 1 > 255) return 0; out[n++] = 0; return n; }
		if (c >= 192) {
			if (pos + 1 >= len) return 0;
			size_t to = (size_t)(c & 63) << 8 | p[pos + 1];
			if (to >= pos) { if (!(to == pos + 1 && p[to] == 0)) return 0; }
			*jumped = 1; pos = to; continue;
		}
		if (c > 63) return 0;
		if (n + 1 + c + 1 > 255) return 0;
		if (pos + 1 + c > len) return 0;
		for (size_t i = 0; i <= c; i++) out[n + i] = p[pos + i];
		n += 1 + c; pos += 1 + c;
	}
}
void vf_main(void) {
	size_t len = vf_choose(N + 1);
	uint8_t *p = vf_buf(len); size_t off = len ? vf_choose(len) : 0;
	uint8_t *dst = malloc(WDNS_MAXLEN_NAME), want[256]; size_t sz = 777; int j = 0;
	wdns_res r = wdns_unpack_name(p, p + len, p + off, dst, &sz);
	size_t n = ref(p, len, off, want, &j);
	vf_observe(r);
	vf_assert((r == wdns_res_success) == (n != 0), "accepts exactly the names RFC 1035 allows");
	if (r == wdns_res_success) {
		vf_assert(sz == n, "expanded length");
		vf_assert(memcmp(dst, want, n) == 0, "expanded name");
		vf_witness("ok"); if (j) vf_witness("pointer");
		vf_observe(sz); vf_observe_bytes(dst, sz);
	} else vf_assert(sz == 777, "size untouched on failure");
}
