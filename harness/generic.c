// RFC 3597: rdata of types without a format of their own
#include "rdtext.h"
static int sp(char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
static int dg(char c) { return (c >= '0') & (c <= '9'); }
static int xd(char c) { return dg(c) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
static unsigned xv(char c) { unsigned u = (unsigned char)c; return (u & 15) + 9 * (u >> 6); }
void vf_main(void) {
	size_t live = vf_live(); uint16_t cls = vf_u16();
#if MODE == 0
	uint16_t type = vf_u16(); for (size_t i = 0; i < NTD; i++) vf_assume(type != tds[i].type); vf_assume(type != 41);
#ifdef BIG
	static const uint16_t ls[] = { 99, 100, 255, 256, 999, 1000, 1500 }; size_t len = ls[vf_choose(7)], k = len / 2;
	uint8_t *rd = malloc(len); for (size_t i = 0; i < len; i++) rd[i] = i == k ? vf_u8() : (uint8_t)(i * 7);
#else
	size_t len = vf_choose(N + 1); uint8_t *rd = vf_buf(len);
#endif
	char *s = wdns_rdata_to_str(rd, (uint16_t)len, type, cls); size_t n = strlen(s); vf_observe_bytes(s, n);
	o = malloc(20 + 3 * len); on = 0; os("\\# "); odec(len); for (size_t i = 0; i < len; i++) { oc(' '); ohex(rd[i], 'a'); }
	vf_assert(n == on || (n == on + 1 && s[on] == ' '), "length of the generic text"); vf_assert(memcmp(s, o, on) == 0, "the generic text"); free(o);
	uint8_t *back = 0; size_t bl = 99; vf_assert(wdns_str_to_rdata(s, type, cls, &back, &bl) == wdns_res_success, "the text is accepted");
	vf_assert(bl == len && memcmp(back, rd, len) == 0, "the same octets"); free(back); free(s); if (len) free(rd); else live = vf_live();
	vf_witness("round trip");
#else			// texts
	static const uint16_t ty[] = { 25, 300, 65535, 0, 258 }; uint16_t type = ty[vf_choose(5)];
	static const char *const P[] = { "", "\\#", "\\# ", "\\# 0", "\\# 1 ", "\\# 2 aB", "\\# 3 00 11", "\\# 6553", "\\# 65537 ", "\\# 4294967297 ", "\\# 1 0" };
	char *b = malloc(40), *d = b; for (const char *e = P[vf_choose(11)]; *e; ) *d++ = *e++;
	for (size_t k = vf_choose(N + 1); k; k--) { *d = (char)vf_u8(); vf_assume(*d != 0); d++; } *d = 0;
	char *s = (char *)vf_dup(b, (size_t)(d - b) + 1); free(b);
	uint8_t *rd = (uint8_t *)1; size_t len = 999; wdns_res r = wdns_str_to_rdata(s, type, cls, &rd, &len); vf_observe(r);
	// reference
	const char *p = s; int ok = p[0] == '\\' && p[1] == '#' && sp(p[2]); uint8_t w[32]; size_t wn = 0; uint64_t l = 0;
	if (ok) { p += 2; while (sp(*p)) p++; ok = dg(*p); while (dg(*p)) { l = l * 10 + (uint64_t)(*p++ - '0'); } if (l > 65535 || (*p && !sp(*p))) ok = 0; }
	while (ok && *p) { if (sp(*p)) { p++; continue; } if (!xd(p[0]) || !xd(p[1])) { ok = 0; break; } w[wn++] = (uint8_t)(xv(p[0]) << 4 | xv(p[1])); p += 2; }
	if (l != wn) ok = 0;
	vf_assert((r == wdns_res_success) == ok, "accepted exactly when the length and the octets agree");
	if (r == wdns_res_success) { vf_assert(len == wn && memcmp(rd, w, wn) == 0, "the octets given"); vf_assert(vf_is_init(rd, len), "initialised"); free(rd); vf_witness("accepted"); }
	else { vf_assert(rd == (uint8_t *)1 && len == 999, "nothing returned"); vf_witness("rejected"); }
	free(s);
#endif
	vf_assert(vf_live() == live, "nothing is leaked");
}
