// Texts around the limits of 63 and 255 octets: label lengths arbitrary, one arbitrary character at the end.
#include "names.h"
#include "wdns.h"
void vf_main(void) {
	char *s = malloc(400), *q = s; size_t lab[5], n = 1, bad = 0;
	int esc = (int)vf_choose(2);
	for (int i = 0; i < 3; i++) { lab[i] = i < LOOSE ? 61 + vf_choose(4) : 63; }
	lab[3] = 56 + vf_choose(9); lab[4] = vf_choose(5);
	for (int i = 0; i < 5; i++) { if (!lab[i]) continue; if (q != s) *q++ = '.'; if (lab[i] > 63) bad = 1; n += 1 + lab[i];
		for (size_t j = 0; j < lab[i]; j++) { if (esc && j == 0) { *q++ = '\\'; *q++ = '.'; } else *q++ = 'A'; } }
	if (vf_choose(2)) *q++ = '.';
	*q = 0; char *t = vf_dup(s, q - s + 1);
	wdns_name_t nm = { 0 }; size_t live = vf_live();
	wdns_res r = wdns_str_to_name_case(t, &nm); vf_observe(r);
	vf_assert((r == wdns_res_success) == (!bad && n <= 255), "limits of 63 and 255 octets");
	if (r == wdns_res_success) { vf_assert(nm.len == n && ref_name(nm.data, n) == n, "well formed"); free(nm.data); vf_witness("ok"); } else vf_witness("long");
	vf_assert(vf_live() == live, "nothing left allocated");
}
