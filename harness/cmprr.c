// compare_rr_rrset: equality of owner (ASCII case-insensitive), type and class; inputs unchanged
#include "names.h"
#include "wdns.h"
void vf_main(void) {
	wdns_rr_t rr; wdns_rrset_t rs; memset(&rr, 0, sizeof rr); memset(&rs, 0, sizeof rs);
#ifdef WIN
	size_t a = 255, b = 255 - vf_choose(2), at = vf_choose(254);
	rr.name.data = malloc(a); rs.name.data = malloc(b); memset(rr.name.data, 'q', a); memset(rs.name.data, 'Q', b);
	rr.name.data[at] = vf_u8(); rr.name.data[at + 1 < a ? at + 1 : at] = vf_u8(); if (at < b) rs.name.data[at] = vf_u8(); if (at + 1 < b) rs.name.data[at + 1] = vf_u8();
#else
	size_t a = vf_choose(N + 1), b = vf_choose(N + 1); rr.name.data = vf_buf(a); rs.name.data = vf_buf(b);
#endif
	rr.name.len = (uint8_t)a; rs.name.len = (uint8_t)b; rr.rrtype = vf_u16(); rr.rrclass = vf_u16(); rs.rrtype = rr.rrtype; rs.rrclass = rr.rrclass; if (vf_choose(2)) { rs.rrtype = vf_u16(); vf_assume(rs.rrtype != rr.rrtype); } if (vf_choose(2)) { rs.rrclass = vf_u16(); vf_assume(rs.rrclass != rr.rrclass); } rr.rrttl = vf_u32(); rs.rrttl = vf_u32();
	uint8_t *ka = vf_dup(rr.name.data, a), *kb = vf_dup(rs.name.data, b);
	int same = a == b && rr.rrtype == rs.rrtype && rr.rrclass == rs.rrclass; if (same) for (size_t i = 0; i < a; i++) same &= ref_lower(ka[i]) == ref_lower(kb[i]);
	bool r = wdns_compare_rr_rrset(&rr, &rs); vf_observe(r);
	vf_assert(r == !!same, "equal exactly when owner, type and class are");
	vf_assert(memcmp(rr.name.data, ka, a) == 0 && memcmp(rs.name.data, kb, b) == 0, "inputs unchanged");
	if (r) vf_witness("equal"); else vf_witness("different");
}
