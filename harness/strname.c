// str_to_name on every text of up to N characters: memory-safe, and what it accepts is a well-formed name
// that an independent reading of RFC 1035 5.1 escapes gives too.
#include "names.h"
#include "wdns.h"
// reference: 0 not acceptable, else length of the name written to out (at least 300 octets)
static size_t ref(const char *s, uint8_t *out, bool fold) {
	size_t n = 0, lab = 0, start = 0;
	if (!*s || (s[0] == '.' && !s[1])) { out[0] = 0; return 1; }
	n = 1;
	for (;;) {
		if (!*s || *s == '.') {
			if (lab == 0 || lab > 63) return 0;
			out[start] = (uint8_t)lab; start = n; n++; lab = 0;
			if (n > 255) return 0;
			if (*s == '.') s++;
			if (!*s) { out[start] = 0; return n; }
			continue;
		}
		uint8_t c = (uint8_t)*s++;
		if (c == '\\') {
			if (!*s) return 0;
			if (*s >= '0' && *s <= '9') {
				if (!(s[1] >= '0' && s[1] <= '9') || !(s[2] >= '0' && s[2] <= '9')) return 0;
				int v = (s[0] - '0') * 100 + (s[1] - '0') * 10 + (s[2] - '0'); if (v > 255) return 0;
				c = (uint8_t)v; s += 3;
			} else c = (uint8_t)*s++;
		} else if (fold) c = ref_lower(c);
		out[n++] = c; lab++;
		if (n > 255) return 0;
	}
}
static void check(const char *s) {
	int fold = FOLD; uint8_t want[600]; size_t n = ref(s, want, fold), live = vf_live();
	wdns_name_t nm = { 0 };
	wdns_res r = fold ? wdns_str_to_name(s, &nm) : wdns_str_to_name_case(s, &nm);
	vf_observe(r);
	vf_assert((r == wdns_res_success) == (n != 0), "accepts exactly the texts that denote a name");
	if (r == wdns_res_success) {
		vf_assert(nm.len == n && vf_objleft(nm.data) >= n, "length"); vf_assert(memcmp(nm.data, want, n) == 0, "octets");
		vf_assert(ref_name(nm.data, n) == n, "well formed"); vf_observe_bytes(nm.data, n); free(nm.data); vf_witness("ok");
	} else vf_witness("rejected");
	vf_assert(vf_live() == live, "nothing left allocated");
}
#ifndef REFONLY
void vf_main(void) {
	size_t len = vf_choose(N + 1); char *s = malloc(len + 1); for (size_t i = 0; i < len; i++) { s[i] = (char)vf_u8(); vf_assume(s[i] != 0); } s[len] = 0;
	check(s);
}
#endif
