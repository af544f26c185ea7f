// count_labels, left_chop, reverse_name, is_subdomain on well-formed names (WF) and on arbitrary octets.
#include "names.h"
#include "wdns.h"
void vf_main(void) {
#ifdef CHOP	// a first label of any length octet in up to 255 octets
	size_t len = 1 + vf_choose(255); uint8_t *b = malloc(len); memset(b, 'k', len); b[0] = vf_u8(); uint8_t *keep = vf_dup(b, len); wdns_name_t nm = { .len = (uint8_t)len, .data = b }, ch = { 0 };
	wdns_res r = wdns_left_chop(&nm, &ch); vf_observe(r);
	if (len == 1 && b[0] == 0) vf_assert(r == wdns_res_success && ch.data == b && ch.len == 1, "the root chops to the root");
	else if (b[0] <= len - 1) { vf_assert(r == wdns_res_success && ch.data == b + 1 + b[0] && ch.len == len - 1 - b[0], "left chop drops a complete first label"); vf_witness("chopped"); }
	else { vf_assert(r != wdns_res_success, "left chop rejects an incomplete first label"); vf_witness("refused"); }
	vf_assert(memcmp(b, keep, len) == 0, "the name itself is not changed");
#elif defined WF
#ifdef LONG
	size_t len; uint8_t *b = vf_longname(&len);
#else
	size_t len; uint8_t *b = vf_name(N, &len);
#endif
	 uint8_t *keep = vf_dup(b, len);
	wdns_name_t nm = { .len = (uint8_t)len, .data = b }, ch = { 0 };
	size_t want = ref_labels(b), got = 999;
	vf_assert(wdns_count_labels(&nm, &got) == wdns_res_success && got == want, "label count"); vf_observe(got);
	vf_assert(wdns_left_chop(&nm, &ch) == wdns_res_success, "left chop succeeds");
	if (want == 0) vf_assert(ch.len == 1 && ch.data == b, "the root chops to the root");
	else { size_t o = 1 + b[0]; vf_assert(ch.data == b + o && ch.len == len - o, "left chop drops exactly the first label"); vf_witness("labels"); }
	uint8_t *rev = malloc(len);
	vf_assert(wdns_reverse_name(b, len, rev) == wdns_res_success, "reverse succeeds");
	size_t pos = 0; for (size_t i = want; i-- > 0;) { size_t o = ref_label_off(b, i); vf_assert(memcmp(rev + pos, b + o, 1 + b[o]) == 0, "reverse: labels in opposite order"); pos += 1 + b[o]; }
	vf_assert(pos == len - 1 && rev[pos] == 0, "reverse: root at the end"); vf_observe_bytes(rev, len);
	uint8_t *back = malloc(len);
	vf_assert(wdns_reverse_name(rev, len, back) == wdns_res_success && memcmp(back, b, len) == 0, "reverse twice is the identity");
	vf_assert(memcmp(b, keep, len) == 0 && nm.len == len, "the name itself is not changed");
#else
	size_t len = 1 + vf_choose(N); uint8_t *b = vf_buf(len); wdns_name_t nm = { .len = (uint8_t)len, .data = b }, ch = { 0 };
	size_t n = ref_name(b, len), got = 999; wdns_res r = wdns_count_labels(&nm, &got); vf_observe(r);
	vf_assert((r == wdns_res_success) == (n != 0), "label count accepts exactly the octets that begin with a name");
	if (n) { vf_assert(got == ref_labels(b), "label count"); vf_witness("name"); } else vf_witness("not a name");
	r = wdns_left_chop(&nm, &ch); vf_observe(r);
	if (len == 1 && b[0] == 0) vf_assert(r == wdns_res_success && ch.data == b && ch.len == 1, "the root chops to the root");
	else if (b[0] <= len - 1) vf_assert(r == wdns_res_success && ch.data == b + 1 + b[0] && ch.len == len - 1 - b[0], "left chop drops a complete first label");
	else vf_assert(r != wdns_res_success, "left chop rejects an incomplete first label");
	uint8_t *rev = malloc(len); r = wdns_reverse_name(b, len, rev); vf_observe(r);
	if (n == len) vf_assert(r == wdns_res_success, "reverse accepts a name");
	if (n == 0) vf_assert(r != wdns_res_success || b[0] > 63, "reverse does not accept octets that are not a name");
#endif
}
