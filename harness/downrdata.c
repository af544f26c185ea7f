// downcase_rdata: exactly the letters of the embedded names of the types RFC 4034 6.2 lists are folded; nothing outside rdata is touched
#include "refmsg.h"
#include "flds.h"
static const uint16_t types[] = { 2,3,4,5,6,7,8,9,12,14,15,17,18,21,24,26,30,33,35,36,38,39 };
void vf_main(void) {
#ifdef TYPES
	static const uint16_t sel[] = { TYPES }; uint16_t type = sel[vf_choose(sizeof sel / sizeof *sel)];
#else
	uint16_t type = vf_u16();
#endif
#ifndef LMIN
#define LMIN 0
#endif
#ifdef FLDS
	q = malloc(600); put_fields(ref_fields(type, 1), 0); size_t len = qn; { size_t cut = vf_choose(3); if (cut == 1 && len) len--; if (cut == 2) q[len++] = vf_u8(); }
	wdns_rdata_t *rd = malloc(sizeof *rd + len); rd->len = (uint16_t)len; memcpy(rd->data, q, len);
#else
	size_t len = LMIN + vf_choose(N + 1 - LMIN);
	wdns_rdata_t *rd = malloc(sizeof *rd + len); rd->len = (uint16_t)len; vf_fill(rd->data, len);
#endif
#ifdef CLASS
	uint16_t cls = CLASS;
#else
	uint16_t cls = vf_u16();
#endif
	uint8_t *in = vf_dup(rd->data, len);
	wdns_res r = wdns_downcase_rdata(rd, type, cls);
	vf_assert(rd->len == len, "length unchanged");
	vf_observe(r); vf_observe_bytes(rd->data, len);
	int listed = 0; for (size_t i = 0; i < sizeof types / sizeof *types; i++) listed |= types[i] == type;
	int same = 1; for (size_t i = 0; i < len; i++) { same &= rd->data[i] == in[i]; vf_assert(rd->data[i] == in[i] || rd->data[i] == ref_lower(in[i]), "an octet is unchanged or folded"); }
	if (!listed) { vf_assert(same && r == wdns_res_success, "other types are left alone"); vf_witness("not listed"); return; }
	const char *f = ref_fields(type, cls);
	// expected: walk the fields of well-formed rdata
	uint8_t *want = vf_dup(in, len); size_t o = 0; int ok = 1;
	for (; *f && ok && o < len; f++) switch (*f) {
	case 'N': { size_t k = ref_name(in + o, len - o); if (!k) { ok = 0; break; } for (size_t i = 0; i < k; i++) want[o + i] = ref_lower(want[o + i]); o += k; break; }
	case '1': o += 1; break; case '2': o += 2; break; case '4': o += 4; break;
	case 'S': o += 1 + (size_t)in[o]; break;
	case 'P': if (in[o] > 128) ok = 0; else o += 1 + (135 - in[o]) / 8; break;
	default: o = len;
	}
	if (!ok || o != len) { vf_witness("malformed"); return; }
	vf_assert(r == wdns_res_success, "well-formed rdata is accepted");
	vf_assert(memcmp(rd->data, want, len) == 0, "exactly the names are folded");
	if (!same) vf_witness("folded");
}
