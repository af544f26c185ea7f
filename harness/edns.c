// EDNS option lists, well formed or not, as text: on their own and as lines of a message.
#include "edtext.h"
static uint8_t byte(void) { return (uint8_t)vf_concrete(vf_u8()); }
static void option(size_t max, int small) {
#if MODE == 2		// client subnets
	put16(8); size_t at = qn; put16(0); unsigned fam = vf_choose(4); put16(fam < 3 ? fam : 257);
	static const uint8_t pl[] = { 0, 9, 24, 32, 100, 128, 255 }; if (fam == 1 && !small) { put(byte()); put(32); } else { put(24); put(small ? 0 : pl[vf_choose(7)]); }
	static const uint8_t ls[] = { 0, 3, 4, 5, 2, 1, 7, 8, 15, 16, 17 }; size_t n = ls[small ? vf_choose(4) : fam == 1 ? vf_choose(6) : vf_choose(11)], k = small ? 0 : vf_choose(n < 3 ? n + !n : 3); if (k == 2) k = n - 1; for (size_t i = 0; i < n; i++) put(i == k ? vf_u8() : i % 3 ? 0 : 0x20); put(0); qn--;
	q[at + 1] = (uint8_t)(n + 4);
#elif MODE == 3		// extended errors
	put16(15); size_t at = qn; put16(0); static const uint16_t cs[] = { 255, 256, 9999, 10000, 49152, 65535 };
	unsigned c = small ? 0 : vf_choose(36); put16(c < 30 ? c : cs[c - 30]); size_t n = vf_choose(max + 1); for (size_t i = 0; i < n; i++) put(vf_u8()); q[at + 1] = (uint8_t)(n + 2);
#else			// any other option
	static const uint16_t cs[] = { 0, 3, 7, 9, 10, 12, 14, 16, 99, 100, 255, 256, 1000, 2056, 3840, 4095, 10000, 65535 };
	put16(cs[vf_choose(small ? 2 : 18)]); size_t n = vf_choose(max + 1); put16((unsigned)n); for (size_t i = 0; i < n; i++) put(vf_u8());
#endif
}
void vf_main(void) {
	size_t live = vf_live(), len; q = malloc(700); qn = 0;
#if MODE == 0		// arbitrary octets; lengths near the end
	static const uint16_t cs[] = { 8, 15, 3, 10, 0x0800, 0x0f00 };
	len = vf_choose(N + 5); size_t i = 0; if (len >= 2) { put16(cs[vf_choose(6)]); i = 2; }
	for (; i < len; i++) switch (i) { case 2: put(vf_choose(2)); break; case 3: put((uint8_t)vf_choose(N + 2)); break; case 4: put(vf_choose(2)); break; case 5: { static const uint8_t v[] = { 0, 1, 2, 24, 25, 255 }; put(v[vf_choose(6)]); break; } case 6: case 7: put(vf_choose(2) ? 33 : 10); break; default: put(vf_u8()); }
#elif MODE == 1		// a long option
	{ static const uint16_t cs[] = { 3, 15 }; unsigned c = vf_choose(2); put16(cs[c]); size_t n = vf_choose(2) ? 255 : 257; put16((unsigned)n); size_t k = vf_choose(2) ? n - 1 : 127; for (size_t i = 0; i < n; i++) put(i == k ? vf_u8() : (uint8_t)(i < 2 ? 0 : i)); len = qn; }
#else
	size_t k = 1 + vf_choose(2); if (k == 2) option(2, 1); option(N, k == 2); len = qn;
	if (vf_choose(2)) { static const uint8_t cut[] = { 1, 2, 3 }; size_t c = cut[vf_choose(3)]; if (vf_choose(2)) len -= c < len ? c : len; else while (c--) { put(c == 2 ? 0 : 7); len++; } }
#endif
	uint8_t *rd = len ? vf_dup(q, len) : vf_buf(0); free(q);
	o = malloc(4000); on = 0; int ok = oedns(rd, len); size_t n;
	if (vf_choose(2)) {
		char *s = wdns_rdata_to_str(rd, (uint16_t)len, 41, vf_choose(2) ? 1 : 4096);
		vf_assert(s != 0, "a text"); n = strlen(s); vf_observe_bytes(s, n);
		if (ok) { vf_assert(n == on, "the length of the text"); vf_assert(memcmp(s, o, n) == 0, "the text shows each option"); vf_witness("options"); }
		else { vf_assert(n >= on + 4, "what precedes the malformed option is shown"); vf_assert(memcmp(s, o, on) == 0, "what precedes the malformed option is shown"); vf_assert(strncmp(s + n - 4, " ###", 4) == 0, "malformed options are marked"); vf_witness("malformed"); }
		free(s);
	} else {
		wdns_message_t m; memset(&m, 0, sizeof m); m.id = 7; m.edns.present = true; m.edns.version = 0; m.edns.size = 1232; m.edns.flags = 0x8000;
		wdns_rdata_t *r = malloc(sizeof *r + len); r->len = (uint16_t)len; memcpy(r->data, rd, len); m.edns.options = r;
		char *s = wdns_message_to_str(&m); vf_assert(s != 0, "a text"); n = strlen(s); vf_observe_bytes(s, n);
		const char *b = strstr(s, "\n; EDNS: "), *e = strstr(s, "\n;; QUESTION"); vf_assert((b != 0) & (e != 0), "the OPT pseudosection");
		b = strchr(b + 1, '\n'); size_t k2 = 0, i2 = 0; int same = 1;	// what follows the first line: "\n; " before every option
		while (k2 < on && b < e) { if (!k2 || o[k2 - 1] == '\n') { same &= strncmp(b, "\n; ", 3) == 0; b += 3; } if (o[k2] != '\n') { same &= *b == o[k2]; b++; } k2++; } (void)i2;
		vf_assert(same, "each option on a line of its own");
		if (ok) { vf_assert(k2 == on, "every option is shown"); vf_assert(b == e, "nothing else is shown"); } else { vf_assert(e - b >= 4, "marked"); vf_assert(strncmp(e - 4, " ###", 4) == 0, "malformed options are marked"); }
		vf_witness("message"); free(s); free(r);
	}
	free(o); if (len) free(rd);
	if (len) vf_assert(vf_live() == live, "nothing is leaked");
}
