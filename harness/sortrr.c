// sort_rrset: a permutation, in one total order (so any arrangement of the same rdatas ends the same)
#include "names.h"
#include "wdns.h"
static int ord(const wdns_rdata_t *a, const wdns_rdata_t *b) { if (a->len != b->len) return a->len < b->len ? -1 : 1; return memcmp(a->data, b->data, a->len); }
void vf_main(void) {
	wdns_rrset_t rs; memset(&rs, 0, sizeof rs); unsigned n = (unsigned)vf_choose(K + 1);
#ifdef MANY
	static const uint16_t num[] = { 5, 17, 33, 129, 255, 256, 257, 300 }; n = num[n];
#define KK 300
	size_t way = vf_choose(3), pl = vf_choose(5); static const uint16_t pls[] = { 2, 31, 255, 256, 300 };
#else
#define KK K
#endif
	rs.n_rdatas = (uint16_t)n; rs.rdatas = malloc(sizeof(void *) * (n + 1));
	wdns_rdata_t *in[KK + 1], *copy[KK + 1];
	for (unsigned i = 0; i < n; i++) {
#ifdef MANY	// of one length, but one shorter; different in the last octets, ascending, descending or mixed; one arbitrary octet
		size_t l = pls[pl] - (i == n / 2); unsigned v = way == 0 ? i : way == 1 ? n - i : i * 7 % n; wdns_rdata_t *d = malloc(sizeof *d + l); d->len = (uint16_t)l; memset(d->data, 9, l); d->data[l - 1] = i == 2 && n < 30 ? vf_u8() : (uint8_t)v; if (l > 1) d->data[l - 2] = (uint8_t)(v >> 8);
#else
		size_t l = vf_choose(L + 1); wdns_rdata_t *d = malloc(sizeof *d + l); d->len = (uint16_t)l; vf_fill(d->data, l);
#endif
		 rs.rdatas[i] = in[i] = d; copy[i] = malloc(sizeof *d + l); memcpy(copy[i], d, sizeof *d + l); }
	vf_assert(wdns_sort_rrset(&rs) == wdns_res_success, "succeeds"); vf_assert(rs.n_rdatas == n, "same number");
	int moved = 0;
	for (unsigned i = 0; i < n; i++) { // each rdata is there exactly once, unchanged
		unsigned c = 0; for (unsigned j = 0; j < n; j++) c += rs.rdatas[j] == in[i];
		vf_assert(c == 1, "a permutation of the rdatas"); vf_assert(in[i]->len == copy[i]->len && memcmp(in[i]->data, copy[i]->data, in[i]->len) == 0, "rdata unchanged");
		moved |= rs.rdatas[i] != in[i];
		vf_observe_bytes(rs.rdatas[i]->data, rs.rdatas[i]->len);
	}
	for (unsigned i = 0; i + 1 < n; i++) vf_assert(ord(rs.rdatas[i], rs.rdatas[i + 1]) <= 0, "in order");
	if (moved) vf_witness("moved");
}
