// Names around the 255-octet limit: label lengths arbitrary, contents fixed, closed by the root label or by a pointer.
#include "names.h"
#include "wdns.h"
#ifdef HOPS
// a name at any of many places, reached through a chain of pointers each led to by the next, with or without a label of one arbitrary octet before each
void vf_main(void) {
	static const uint16_t places[] = { 0, 1, 127, 128, 255, 256, 257, 4095, 4096, 8191, 8192, 16000 }, hops[] = { 1, 2, 3, 8, 9, 10, 11, 15, 16, 17, 32, 33, 63, 64, 65, 100, 122 };
	size_t pos = places[vf_choose(12)], n = 0, h = hops[vf_choose(17)], lab = vf_choose(2), cnt = 0; uint8_t *p = malloc(17000), want[300]; memset(p, 'a', pos); size_t to = pos; p[pos++] = 2; uint8_t c = vf_u8(); p[pos++] = c; p[pos++] = 'z'; p[pos++] = 0;
	size_t end[3] = { 2, c, 'z' };
	for (size_t i = 0; i < h && pos < 16384 - 4; i++) { size_t at = pos; if (lab) { p[pos++] = 1; p[pos++] = (uint8_t)('0' + i); } p[pos++] = (uint8_t)(192 | to >> 8); p[pos++] = (uint8_t)to; to = at; cnt++; }
	if (lab) for (size_t i = cnt; i-- > 0;) { want[n++] = 1; want[n++] = (uint8_t)('0' + i); }
	for (int i = 0; i < 3; i++) want[n++] = (uint8_t)end[i]; want[n++] = 0;
	uint8_t *q = vf_dup(p, pos), *dst = malloc(WDNS_MAXLEN_NAME); size_t sz = 0; wdns_res r = wdns_unpack_name(q, q + pos, q + to, dst, &sz); vf_observe(r);
	vf_assert((r == wdns_res_success) == (n <= 255), "any number of pointers"); if (r == wdns_res_success) { vf_assert(sz == n && memcmp(dst, want, n) == 0, "name"); vf_witness("ok"); if (cnt > 100) vf_witness("long"); }
	const uint8_t *t = q + to; size_t k = wdns_skip_name(&t, q + pos); vf_assert(t == q + to + k && t == q + pos, "skip");
}
#elif defined PTR
// the tail of the name lies earlier in the packet: t1 t2 root, then l1 l2 l3 and a pointer to t1, t2 or the root
void vf_main(void) {
	uint8_t *p = malloc(340), want[600]; size_t pos = 1, n = 0, at[3]; memset(p, 'a', 340);
	uint8_t *dst = malloc(WDNS_MAXLEN_NAME); size_t sz = 0;
	for (int i = 0; i < 2; i++) { size_t c = i ? 1 + vf_choose(63) : 61 + vf_choose(3); at[i] = pos; p[pos] = c; pos += 1 + c; }
	at[2] = pos; p[pos++] = 0; size_t tail = pos, start = pos;
	for (int i = 0; i < 3; i++) { size_t c = i < 2 ? 62 + vf_choose(2) : 1 + vf_choose(63); p[pos] = c; pos += 1 + c; }
	size_t to = at[vf_choose(3)]; memcpy(want, p + start, pos - start); n = pos - start; memcpy(want + n, p + to, tail - to); n += tail - to;
	p[pos++] = 192; p[pos++] = (uint8_t)to;
	uint8_t *q = vf_dup(p, pos);
	wdns_res r = wdns_unpack_name(q, q + pos, q + start, dst, &sz); vf_observe(r);
	vf_assert((r == wdns_res_success) == (n <= 255), "limit of 255 octets");
	if (r == wdns_res_success) { vf_assert(sz == n && memcmp(dst, want, n) == 0, "name"); vf_witness("ok"); } else vf_witness("long");
}
#else
void vf_main(void) {
	uint8_t *p = malloc(340), want[600]; size_t pos = 0, n = 0; memset(p, 'a', 340);
	uint8_t *dst = malloc(WDNS_MAXLEN_NAME); size_t sz = 0;
	for (int i = 0; i < 3; i++) { size_t c = 61 + vf_choose(3); p[pos] = c; pos += 1 + c; }
	size_t c4 = 1 + vf_choose(63); p[pos] = c4; pos += 1 + c4;
	size_t c5 = vf_choose(64); if (c5) { p[pos] = c5; pos += 1 + c5; }
	memcpy(want, p, pos); n = pos;
	p[pos++] = 0; want[n++] = 0;
	wdns_res r = wdns_unpack_name(p, p + pos, p, dst, &sz); vf_observe(r);
	vf_assert((r == wdns_res_success) == (n <= 255), "limit of 255 octets");
	if (r == wdns_res_success) { vf_assert(sz == n && memcmp(dst, want, n) == 0, "name"); vf_witness("ok"); } else vf_witness("long");
	uint8_t *d2 = malloc(WDNS_MAXLEN_NAME); size_t s2 = 0, s3 = 0;
	wdns_res r2 = wdns_copy_uname(p, p + pos, p, d2, &s2);
	vf_assert((r2 == wdns_res_success) == (n <= 255), "copy: limit of 255 octets");
	if (r2 == wdns_res_success) vf_assert(s2 == n && memcmp(d2, want, n) == 0, "copy: name");
	wdns_res r3 = wdns_len_uname(p, p + pos, &s3);
	vf_assert((r3 == wdns_res_success) == (n <= 255), "length: limit of 255 octets");
	if (r3 == wdns_res_success) vf_assert(s3 == n, "length");
	const uint8_t *q = p; size_t k = wdns_skip_name(&q, p + pos); vf_assert(k == pos && q == p + pos, "skip");
}
#endif
