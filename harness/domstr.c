// Presentation form of a name: exact text on well-formed names (WF), bounds on arbitrary octets.
#include "names.h"
#include "wdns.h"
static size_t ref_text(const uint8_t *p, char *o) {
	char *s = o;
	if (*p == 0) { *o++ = '.'; *o = 0; return 1; }
	while (*p) {
		uint8_t c = *p++;
		while (c--) {
			uint8_t x = *p++;
			if (x == '.' || x == '\\') { *o++ = '\\'; *o++ = x; }
			else if (x > 32 && x < 127) *o++ = x;
			else { *o++ = '\\'; *o++ = '0' + x / 100; *o++ = '0' + x / 10 % 10; *o++ = '0' + x % 10; }
		}
		*o++ = '.';
	}
	*o = 0; return o - s;
}
void vf_main(void) {
#ifdef WF
#ifdef LONG
	size_t len; uint8_t *b = vf_longname(&len);
#else
	size_t len; uint8_t *b = vf_name(N, &len);
#endif
	char *want = malloc(4 * len + 8); size_t n = ref_text(b, want);
	char *got = malloc(n + 1);	// exactly the room the text needs
	size_t r = wdns_domain_to_str(b, len, got);
	vf_assert(r == len, "returns the octets read");
	vf_assert(memcmp(got, want, n + 1) == 0, "text");
	vf_observe(r); vf_observe_bytes(got, n + 1); if (len > 1) vf_witness("labels");
	wdns_name_t back = { 0 };
	vf_assert(wdns_str_to_name_case(got, &back) == wdns_res_success, "the text reads back");
	vf_assert(back.len == len && memcmp(back.data, b, len) == 0, "as the same name"); free(back.data);
	vf_assert(wdns_str_to_name(got, &back) == wdns_res_success && back.len == len, "the text reads back (folding)");
	for (size_t i = 0; i < len; i++) vf_assert(back.data[i] == b[i] || back.data[i] == ref_lower(b[i]), "as the same name up to case"); free(back.data);
#else
	size_t len = vf_choose(N + 1); uint8_t *b = vf_buf(len); char *o = malloc(WDNS_PRESLEN_NAME);
	size_t r = wdns_domain_to_str(b, len, o); vf_observe(r);
	size_t k = strlen(o); vf_assert(k >= 1 && k <= 4 * len + 1, "length of the text");
	for (size_t i = 0; i < k; i++) vf_assert(o[i] > 32 && o[i] < 127, "printable text");
	vf_observe_bytes(o, k); if (len == N) vf_witness("full");
#endif
}
