// rdata -> text -> rdata for well-formed rdata: one field arbitrary, the others fixed
#include "rdtext.h"
#include "rdfix.h"
#ifndef STR
#define STR 2
#endif
static void strn(size_t max) { size_t n = vf_choose(max + 1); put((uint8_t)n); while (n--) put(vf_u8()); }
// a number: every value of one octet, the others all zero or all one bits; or values around the powers of ten
static void num(size_t n) {
#ifdef NUMS
	size_t k = vf_choose(n); uint8_t fill = vf_choose(2) ? 255 : 0; for (size_t i = 0; i < n; i++) put(i == k ? (uint8_t)vf_concrete(vf_u8()) : fill);
#else
	static const uint32_t v[] = { 0, 9, 10, 100, 255, 256, 9999, 10000, 65535, 65536, 100000, 999999999, 1000000000, 2147483648u, 4294967295u }; uint32_t x = v[vf_choose(n == 1 ? 5 : n == 2 ? 9 : 15)]; while (n--) put((uint8_t)(x >> 8 * n));
#endif
}
static void big(size_t n) { size_t k = vf_choose(3); k = k == 0 ? 0 : k == 1 ? n / 2 : n - 1; for (size_t i = 0; i < n; i++) put(i == k ? vf_u8() : i % 5 ? (uint8_t)(i * 7) : 0xff); }
static void any(char f) {
#ifdef BIG
	switch (f) {
	case 'S': case 'l': case 'x': case 'R': { size_t n = 254 + vf_choose(2); put((uint8_t)n); big(n); return; }
	case 'B': case 'b': case 'q': big(300); return;
	case 'V': { static const uint8_t ks[] = { 1, 5, 7 }; unsigned key = ks[vf_choose(3)]; size_t n = key == 1 ? 256 : 300; put16(key); put16((unsigned)n); if (key == 1) put(255); big(key == 1 ? 255 : 300); return; }
	}
	fixed(f); return;
#endif
#ifdef NUMS
	if (!strchr("124atV", f)) { fixed(f); return; }
#endif
	switch (f) {
	case 'N': { size_t n = vf_choose(3), k; for (k = 0; k < n; k++) { size_t l = 1 + vf_choose(STR - k > 1 ? STR - k : 1); put((uint8_t)l); while (l--) put(vf_u8()); } put(0); break; }
	case '1': num(1); break; case '2': num(2); break; case '4': case 'a': num(4); break;
	case 't': { size_t a = qn; num(2); vf_assume(q[a] | q[a + 1]); break; }
	case 'G': { size_t k = vf_choose(8); for (size_t i = 0; i < 8; i++) if (i == k) { put(vf_u8()); put(vf_u8()); } else put16(i < k && k > 5 ? 0 : i & 1); break; }
	case '6': case '8': { size_t k = vf_choose((size_t)(f - '0')); for (size_t i = 0; i < (size_t)(f - '0'); i++) put(i == k || i == k + 1 ? vf_u8() : 0x5a); break; }
	case 'S': strn(STR); break; case 'R': for (size_t k = vf_choose(3); k; k--) strn(k > 1 ? 1 : STR); break;
	case 'l': strn(3); break;
	case 'x': { size_t n = vf_choose(7), k = vf_choose(n ? n : 1); put((uint8_t)n); for (size_t i = 0; i < n; i++) put(i == k || i == k + 1 ? vf_u8() : 0xa5); break; }
	case 'B': for (size_t k = vf_choose(4); k; k--) put(vf_u8()); break;
	case 'b': { size_t n = vf_choose(8), k = vf_choose(n ? n : 1); for (size_t i = 0; i < n; i++) put(i == k ? vf_u8() : 0xa5); break; }
	case 'q': for (size_t k = vf_choose(STR + 1); k; k--) put(vf_u8()); break;
	case 'P': { static const uint8_t pl[] = { 1, 7, 8, 9, 64, 99, 112, 119, 120, 121, 127, 128 }; uint8_t n = pl[vf_choose(12)]; put(n); for (int i = 0; i < (135 - n) / 8; i++) put(i == (n & 15) ? vf_u8() : 3); break; }
	case 'T': { static const uint8_t ws[] = { 1, 2, 127, 128, 255 }, nl[] = { 1, 2, 32 }; size_t k = vf_choose(3); unsigned w = k ? vf_choose(2) : 0;
			for (size_t i = 0; i < k; i++) { if (i) w = ws[vf_choose(5)]; else if (k == 2) w = 0; size_t n = nl[vf_choose(3)]; put((uint8_t)w); put((uint8_t)n); for (size_t j = 0; j + 1 < n; j++) put(j == 0 && n == 2 ? 1 << vf_choose(8) : 0); put((i + 1 == k ? 1 << vf_choose(8) : 0x42)); }
			break; }
	case 'V': { unsigned key = vf_choose(8); if (key < 7) put16(key); else { size_t a = qn; num(2); unsigned k = (unsigned)q[a] << 8 | q[a + 1]; vf_assume((k > 6) & (k != 65535)); }
			size_t at = qn; put16(0);
			switch (key) {
			case 0: { size_t k = 1 + vf_choose(2), i = vf_choose(k); for (size_t j = 0; j < k; j++) if (i == j) { size_t a = qn; num(2); vf_assume((q[a] & q[a + 1]) != 255); } else put16(4); break; }
			case 1: for (size_t k = 1 + vf_choose(2); k; k--) { size_t n = 1 + vf_choose(k > 1 ? 1 : STR); put((uint8_t)n); while (n--) put(vf_u8()); } break;
			case 2: break;
			case 3: num(2); break;
			case 4: { size_t k = 1 + vf_choose(2), i = vf_choose(k); for (size_t j = 0; j < k; j++) if (i == j) any('a'); else fixed('a'); break; }
			case 5: { size_t n = 1 + vf_choose(4), k = vf_choose(n); for (size_t i = 0; i < n; i++) put(i == k ? vf_u8() : 0x5a); break; }
			case 6: { size_t k = 1 + vf_choose(2), i = vf_choose(k); for (size_t j = 0; j < k; j++) if (i == j) any('G'); else fixed('G'); break; }
			case 7: for (size_t k = vf_choose(STR + 1); k; k--) put(vf_u8()); break;
			}
			q[at + 1] = (uint8_t)(qn - at - 2); break; }
	}
}
void vf_main(void) {
	size_t live = vf_live();
#ifdef TYPES
	static const uint16_t sel[] = { TYPES }; uint16_t type = sel[vf_choose(sizeof sel / sizeof *sel)]; size_t t = 0; while (tds[t].type != type) t++;
#else
	size_t t = vf_choose(NTD); uint16_t type = tds[t].type;
#endif
	const char *f = tds[t].f; size_t nf = strlen(f), af = vf_choose(nf + 1), cut = nf;
	if (af == nf) { cut = vf_choose(nf + 1); if (f[0] == 'P') cut = nf; }	// all fixed, perhaps cut at a field
	q = malloc(900); qn = 0;
	for (size_t i = 0; i < cut; i++) if (i == af) any(f[i]); else fixed(f[i]);
	size_t len = qn; uint8_t *rd = vf_dup(q, len); free(q);
	uint16_t cls = tds[t].in_only ? 1 : vf_choose(2) ? 3 : 1;
	char *s = wdns_rdata_to_str(rd, (uint16_t)len, type, cls);
	vf_assert(s != 0, "a text"); size_t n = strlen(s); vf_observe_bytes(s, n);
	o = malloc(4000); on = 0; ordata(f, rd, len);
	vf_assert(n == on, "the length of the text"); vf_assert(memcmp(s, o, n) == 0, "the text shows each field in its format"); free(o);
	uint8_t *back = (uint8_t *)1; size_t bl = 99; wdns_res r = wdns_str_to_rdata(s, type, cls, &back, &bl);
	vf_assert(r == wdns_res_success, "the text is accepted");
	if (r == wdns_res_success) { vf_assert(bl == len, "the same length"); vf_assert(memcmp(back, rd, len) == 0, "the same octets"); free(back); }
	free(s); free(rd);
	vf_assert(vf_live() == live, "nothing is leaked");
	if (af == nf) vf_witness("cut"); else vf_witness("round trip");
}
