// address formatting: the same text as inet_ntop, within the size; a short buffer is reported and not written beyond
#include "vf.h"
#include <arpa/inet.h>
#include "libmy/fast_inet_ntop.h"
void vf_main(void) {
#if MODE == 4
	uint8_t *a = vf_buf(4); size_t sz = vf_choose(2) ? 16 : vf_choose(20); char *d = malloc(sz ? sz : 1), w[INET_ADDRSTRLEN];
	const char *r = vf_choose(2) ? fast_inet4_ntop(a, d, (socklen_t)sz) : fast_inet_ntop(AF_INET, a, d, (socklen_t)sz); vf_observe(r != NULL);
	vf_assert(inet_ntop(AF_INET, a, w, sizeof w) == w, "reference");
	if (sz >= 16) vf_assert(r == d, "succeeds");
	if (!r) { vf_witness("short"); return; }
	vf_assert(r == d && strlen(d) == strlen(w) && memcmp(d, w, strlen(w)) == 0, "canonical text"); vf_observe_bytes(d, strlen(d)); vf_witness("ok");
#else
	// ARB words are arbitrary, the others 0 or 0x1a2b
	uint8_t *a = malloc(16); size_t at = vf_choose(9 - ARB);
	for (size_t i = 0; i < 8; i++) if (i >= at && i < at + ARB) { a[2 * i] = vf_u8(); a[2 * i + 1] = vf_u8(); } else if (vf_choose(2)) { a[2 * i] = 0x1a; a[2 * i + 1] = 0x2b; } else a[2 * i] = a[2 * i + 1] = 0;
	size_t sz = vf_choose(8) ? 46 : vf_choose(50); char *d = malloc(sz ? sz : 1), w[INET6_ADDRSTRLEN];
	const char *r = fast_inet6_ntop(a, d, (socklen_t)sz); vf_observe(r != NULL);
	vf_assert(inet_ntop(AF_INET6, a, w, sizeof w) == w, "reference");
	if (sz >= 46) vf_assert(r == d, "succeeds");
	if (!r) { vf_witness("short"); return; }
	vf_assert(r == d && strlen(d) == strlen(w) && memcmp(d, w, strlen(w)) == 0, "canonical text"); vf_observe_bytes(d, strlen(d)); vf_witness("ok");
#endif
}
