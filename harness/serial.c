// serialize_rrset then deserialize_rrset: the same RRset, the announced size, nothing outside it written
#include "names.h"
#include "wdns.h"
void vf_main(void) {
	wdns_rrset_t rs, rt; memset(&rs, 0, sizeof rs); size_t nl = vf_choose(NAME + 1);
#ifdef BIGNAME
	nl = 250 + vf_choose(6); rs.name.data = malloc(nl); memset(rs.name.data, 'x', nl); rs.name.data[0] = vf_u8(); rs.name.data[nl - 1] = vf_u8();
#else
	rs.name.data = vf_buf(nl);
#endif
	rs.name.len = (uint8_t)nl; rs.rrtype = vf_u16(); rs.rrclass = vf_u16(); rs.rrttl = vf_u32();
	rs.n_rdatas = (uint16_t)vf_choose(K + 1);
#ifdef MANY
	static const uint16_t num[] = { 4, 15, 16, 17, 64, 127, 128, 255, 256, 257, 300 }, len[] = { 0, 1, 2, 127, 128, 255, 256, 257 }; rs.n_rdatas = num[rs.n_rdatas]; size_t dl = len[vf_choose(8)];
#endif
	 rs.rdatas = malloc(sizeof(void *) * (rs.n_rdatas + 1u)); size_t want = 11 + nl;
	for (unsigned i = 0; i < rs.n_rdatas; i++) {
#ifdef MANY
		size_t l = i % 3 ? dl : 1;
#else
		size_t l = vf_choose(L + 1);
#endif
#ifdef BIGRD
		l = l < 2 ? l : (l == 2 ? 256 : l == 3 ? 65535 : l);
#endif
		wdns_rdata_t *d = malloc(sizeof *d + l); d->len = (uint16_t)l; memset(d->data, 0x5a, l); 
#ifdef MANY
		if (l) d->data[l - 1] = i < 2 || i + 2 > rs.n_rdatas ? vf_u8() : (uint8_t)i;
#else
		for (size_t k = 0; k < l && k < 3; k++) d->data[k] = vf_u8(); if (l) d->data[l - 1] = vf_u8();
#endif
		 rs.rdatas[i] = d; want += 2 + l; }
	size_t sz = 0, sz2 = 0;
	vf_assert(wdns_serialize_rrset(&rs, NULL, &sz) == wdns_res_success, "size query succeeds");
	vf_assert(sz == want, "announced size is the exact size");
	uint8_t *b = malloc(sz);	// exact buffer: an octet more written is an error
	int both = (int)vf_choose(2);
	vf_assert(wdns_serialize_rrset(&rs, b, both ? &sz2 : NULL) == wdns_res_success, "serialize succeeds");
	if (both) vf_assert(sz2 == sz, "same size again");
	vf_assert(vf_is_init(b, sz), "every octet of the announced size is written");
	vf_observe_bytes(b, sz < 40 ? sz : 40);
	vf_assert(wdns_deserialize_rrset(&rt, b, sz) == wdns_res_success, "deserialize accepts it");
	vf_assert(rt.name.len == nl && memcmp(rt.name.data, rs.name.data, nl) == 0 && rt.rrtype == rs.rrtype && rt.rrclass == rs.rrclass && rt.rrttl == rs.rrttl && rt.n_rdatas == rs.n_rdatas, "same RRset");
	for (unsigned i = 0; i < rs.n_rdatas; i++) vf_assert(rt.rdatas[i]->len == rs.rdatas[i]->len && memcmp(rt.rdatas[i]->data, rs.rdatas[i]->data, rs.rdatas[i]->len) == 0, "same rdata in the same order");
	if (rs.n_rdatas > 1) vf_witness("several");
	wdns_clear_rrset(&rt);
	size_t cut = vf_choose(sz < 12 ? sz : 12) + 1; uint8_t *c = vf_dup(b, sz - cut);
	vf_assert(wdns_deserialize_rrset(&rt, c, sz - cut) != wdns_res_success, "a cut copy is rejected");
}
