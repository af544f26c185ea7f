// A buffer of 255 octets, every octet needing the longest escape, arbitrary length octet at the front.
#include "names.h"
#include "wdns.h"
void vf_main(void) {
	size_t len = 255 - vf_choose(4); uint8_t *b = malloc(len); memset(b, vf_choose(2) ? 1 : 255, len);
	b[0] = vf_u8(); if (len > 64) b[64] = vf_u8(); b[len - 1] = vf_u8();
	char *o = malloc(WDNS_PRESLEN_NAME);
	size_t r = wdns_domain_to_str(b, len, o); vf_observe(r); vf_observe(strlen(o));
	vf_assert(strlen(o) < WDNS_PRESLEN_NAME, "fits the documented buffer"); vf_witness("done");
}
