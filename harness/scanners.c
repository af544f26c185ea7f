// The functions that walk a name in a packet agree with one another and with RFC 1035 on every buffer.
#include "names.h"
#include "wdns.h"
void vf_main(void) {
	size_t len = 1 + vf_choose(N);
	uint8_t *p = vf_buf(len); size_t off = vf_choose(len);
	size_t n = ref_name(p + off, len - off);
	uint8_t *dst = malloc(WDNS_MAXLEN_NAME); size_t sz = 777;
	wdns_res r = wdns_copy_uname(p, p + len, p + off, dst, &sz); vf_observe(r);
	vf_assert((r == wdns_res_success) == (n != 0), "copy accepts exactly the uncompressed names");
	if (n) { vf_assert(sz == n && memcmp(dst, p + off, n) == 0, "copy is the name"); vf_witness("name"); }
	else vf_assert(sz == 777, "copy: size untouched on failure");
	size_t ls = 777; wdns_res lr = wdns_len_uname(p + off, p + len, &ls); vf_observe(lr);
	vf_assert((lr == wdns_res_success) == (n != 0), "length accepts exactly the uncompressed names");
	if (n) vf_assert(ls == n, "length");
	const uint8_t *q = p + off; size_t k = wdns_skip_name(&q, p + len); vf_observe(k);
	vf_assert(q == p + off + k && q > p + off && q <= p + len, "skip moves forward and stays inside");
	if (n) vf_assert(k == n, "skip passes exactly the name");
	uint8_t *d2 = malloc(WDNS_MAXLEN_NAME); size_t us = 0;
	wdns_res ur = wdns_unpack_name(p, p + len, p + off, d2, &us); vf_observe(ur);
	if (n) vf_assert(ur == wdns_res_success && us == n && memcmp(d2, dst, n) == 0, "expansion of an uncompressed name is the name");
	if (ur == wdns_res_success && !n) { // compressed: skip passes the labels before the pointer and the pointer
		size_t m = off; while (p[m] < 192) m += 1 + p[m];
		vf_assert(q == p + m + 2, "skip passes a compressed name"); vf_witness("compressed");
	}
}
