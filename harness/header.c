// the header of a message: its six fields, or refused when it is short
#include "vf.h"
#include "wdns.h"
wdns_res _wdns_parse_header(const uint8_t *p, size_t len, uint16_t *id, uint16_t *flags, uint16_t *qdcount, uint16_t *ancount, uint16_t *nscount, uint16_t *arcount);
void vf_main(void) {
	size_t n = vf_choose(N + 1); uint8_t *p = vf_buf(n); uint16_t v[8] = { 1, 2, 3, 4, 5, 6, 7, 8 }; uint8_t *c = vf_dup(p, n);
	wdns_res r = _wdns_parse_header(p, n, &v[1], &v[2], &v[3], &v[4], &v[5], &v[6]); vf_observe(r); vf_assert((r == wdns_res_success) == (n >= 12), "accepted exactly when all twelve octets are there");
	if (r == wdns_res_success && n >= 12) { for (int i = 0; i < 6; i++) { vf_observe(v[i + 1]); vf_assert(v[i + 1] == p[2 * i] * 256 + p[2 * i + 1], "the fields, in network order"); } vf_witness("header"); } else vf_witness("short");
	vf_assert(v[0] == 1 && v[7] == 8, "nothing else is written"); vf_assert(memcmp(p, c, n) == 0, "the message is not changed"); if (n) free(p); free(c);
}
