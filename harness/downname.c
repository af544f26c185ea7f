// downcase_name folds A-Z everywhere in the name and changes nothing else.
#include "names.h"
#include "wdns.h"
void vf_main(void) {
	size_t len = vf_choose(N + 1); 
#ifdef WIN	// fixed octets except for two arbitrary ones anywhere
	uint8_t *b = malloc(len ? len : 1); for (size_t i = 0; i < len; i++) b[i] = (uint8_t)(i * 37 + 60);
	if (len < N - 2) return;
	if (len >= 2) { size_t at = vf_choose(len - 1); for (size_t i = 0; i < 2; i++) b[at + i] = vf_u8(); }
#else
	uint8_t *b = vf_buf(len);
#endif
	uint8_t *k = vf_dup(b, len); wdns_name_t nm = { .len = (uint8_t)len, .data = b };
	wdns_downcase_name(&nm);
	vf_assert(nm.len == len && nm.data == b, "same storage");
	for (size_t i = 0; i < len; i++) vf_assert(b[i] == ref_lower(k[i]), "letters folded, other octets kept");
	vf_observe_bytes(b, len); if (len == N) vf_witness("full");
	size_t n = ref_name(k, len); if (n) vf_assert(ref_name(b, len) == n, "label structure kept");
}
