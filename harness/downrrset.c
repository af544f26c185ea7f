// downcase_rrset: the owner and every rdata are folded, as each is alone
#include "refmsg.h"
#include "wdns.h"
void vf_main(void) {
	static const uint16_t types[] = { 2, 15, 1, 6, 33, 16, 47, 300 }; wdns_rrset_t s; memset(&s, 0, sizeof s); size_t live = vf_live();
	s.rrtype = types[vf_choose(8)]; s.rrclass = vf_choose(4) ? 1 : 3; s.rrttl = vf_u16();
	size_t nl = 1 + vf_choose(4); s.name.data = malloc(nl); s.name.len = (uint8_t)nl; s.name.data[0] = (uint8_t)(nl > 2 ? nl - 2 : 0); for (size_t i = 1; i + 1 < nl; i++) s.name.data[i] = i == 1 ? vf_u8() : 'Q'; if (nl > 1) s.name.data[nl - 1] = 0;
	uint8_t *nm = vf_dup(s.name.data, nl); uint32_t ttl = s.rrttl; uint16_t type = s.rrtype, cls = s.rrclass;
	size_t k = vf_choose(K + 1); s.n_rdatas = (uint16_t)k; s.rdatas = k ? malloc(k * sizeof *s.rdatas) : NULL; wdns_rdata_t *one[K + 1], *raw[K + 1], *was[K + 1]; wdns_res want = wdns_res_success; size_t bad = k;
	size_t gap = vf_choose(4) ? k : 0;	// a set may have gaps
	for (size_t i = 0; i < k; i++) {
		if (i == gap) { s.rdatas[i] = was[i] = one[i] = raw[i] = NULL; continue; }
		size_t n = vf_choose(4); if (n) n = n == 1 ? 1 : n == 2 ? 3 : 5; wdns_rdata_t *r = malloc(sizeof *r + n); r->len = (uint16_t)n; static const char *const D[] = { "", "\0", "", "\1X\0", "", "\0\7\1Y\0" }; memcpy(r->data, D[n], n); if (n) r->data[vf_choose(n)] = vf_u8();
		was[i] = s.rdatas[i] = r; raw[i] = (wdns_rdata_t *)vf_dup(r, sizeof *r + n); one[i] = (wdns_rdata_t *)vf_dup(r, sizeof *r + n);
		wdns_res r1 = wdns_downcase_rdata(one[i], type, cls); if (r1 != wdns_res_success && want == wdns_res_success) { want = r1; bad = i; }
	}
	wdns_res r = wdns_downcase_rrset(&s); vf_observe(r); vf_assert(r == want, "accepted when each of its data is");
	vf_assert(s.rrtype == type && s.rrclass == cls && s.rrttl == ttl && s.n_rdatas == k && s.name.len == nl, "nothing else is changed");
	for (size_t i = 0; i < nl; i++) vf_assert(s.name.data[i] == ref_lower(nm[i]), "the owner is folded");
	unsigned folded = 0;
	for (size_t i = 0; i < k; i++) { vf_assert(s.rdatas[i] == was[i], "the data stay where they are"); if (!was[i]) continue; size_t n = raw[i]->len; vf_assert(was[i]->len == n, "lengths are unchanged"); vf_observe_bytes(was[i]->data, n);
		if (r == wdns_res_success) vf_assert(memcmp(was[i]->data, one[i]->data, n) == 0, "every rdata is folded as it is alone"); else for (size_t j = 0; j < n; j++) vf_assert((was[i]->data[j] == raw[i]->data[j]) | (was[i]->data[j] == one[i]->data[j]), "an octet is unchanged or folded");
		for (size_t j = 0; j < n; j++) folded |= was[i]->data[j] ^ raw[i]->data[j]; free(raw[i]); free(one[i]); }
	if (folded && k >= 2) vf_witness("folded"); if (r != wdns_res_success) vf_witness("refused");
	free(nm); wdns_clear_rrset(&s); vf_assert(vf_live() == live, "nothing is kept");
}
