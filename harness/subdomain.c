// is_subdomain decides "ends with the parent's labels and has more of them".
#include "names.h"
#include "wdns.h"
void vf_main(void) {
#ifdef LONG	// a long name and the end of it from some label on, in which one octet may be another, or with a first label of its own
	size_t la; uint8_t *a = vf_longname(&la); size_t cut = ref_labels(a), o; static const uint8_t cs[] = { 0, 1, 2, 3, 62, 63, 64, 65, 125, 126, 127 }; size_t c = cs[vf_choose(11)]; vf_assume(c <= cut); o = ref_label_off(a, c);
	size_t lb = la - o; uint8_t *b = vf_dup(a + o, lb); size_t how = vf_choose(4); if (how && lb > 1) { size_t at = how == 1 ? 1 : how == 2 ? b[0] : lb - 2; b[at] = vf_u8(); if (how == 3) { size_t l = ref_label_off(b, ref_labels(b) - 1); vf_assume(l != at); } }
	if (how == 0 && vf_choose(2)) { uint8_t *t = a; size_t u = la; a = b; la = lb; b = t; lb = u; }
#elif defined WF
	size_t la, lb; uint8_t *a = vf_name(NA, &la), *b = vf_name(NB, &lb);
#else
	size_t la = 1 + vf_choose(NA), lb = 1 + vf_choose(NB); uint8_t *a = vf_buf(la), *b = vf_buf(lb);
#endif
	uint8_t *ka = vf_dup(a, la), *kb = vf_dup(b, lb);
	wdns_name_t x = { .len = la, .data = a }, y = { .len = lb, .data = b }; bool sub = true;
	wdns_res r = wdns_is_subdomain(&x, &y, &sub);
	vf_observe(r); vf_observe(sub);
	size_t na = ref_name(a, la), nb = ref_name(b, lb);
	vf_assert((r == wdns_res_success) == (na && nb), "an answer exactly for two names");
	if (na && nb) {
		bool want = false;
		if (na > nb) { // some label of a starts the suffix
			size_t o = 0; while (o < na - nb) o += 1 + a[o];
			want = o == na - nb && memcmp(a + o, b, nb) == 0;
		}
		vf_assert(sub == want, "subdomain relation");
		if (want && nb > 1) vf_witness("below"); if (!want) vf_witness("not below");
	} else vf_assert(!sub, "no relation when an argument is not a name");
	vf_assert(memcmp(a, ka, la) == 0 && memcmp(b, kb, lb) == 0, "arguments are not changed");
}
