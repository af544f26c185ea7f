// deserialize_rrset: any octets; accepted exactly when they begin with a whole serialized RRset
#include "names.h"
#include "wdns.h"
void vf_main(void) {
#ifdef LARGE	// long owners, many rdatas, long rdatas; whole, cut anywhere near a border, or with more after it
	static const uint16_t num[] = { 0, 1, 3, 16, 17, 127, 128, 255, 256, 257, 300 }, len[] = { 0, 1, 2, 127, 128, 255, 256, 257, 1025, 32767, 32768, 65535 }; static const uint8_t own[] = { 0, 1, 127, 128, 255 };
	size_t nl = own[vf_choose(5)], c = num[vf_choose(11)], dl = len[vf_choose(12)]; vf_assume(c < 18 || dl < 1100); size_t n = nl + 11; for (size_t i = 0; i < c; i++) n += 2 + (i % 3 == 1 ? 1 : dl);
	uint8_t *b = malloc(n + 1); size_t w = 0; memset(b, 0x33, n + 1); b[w++] = (uint8_t)nl; if (nl) b[nl] = vf_u8(); w += nl; for (int i = 0; i < 8; i++) b[w++] = vf_u8(); b[w++] = (uint8_t)c; b[w++] = (uint8_t)(c >> 8); size_t last = w;
	for (size_t i = 0; i < c; i++) { size_t l = i % 3 == 1 ? 1 : dl; last = w; b[w++] = (uint8_t)l; b[w++] = (uint8_t)(l >> 8); if (l) b[w + l - 1] = i + 2 > c ? vf_u8() : (uint8_t)i; w += l; }
	size_t cut = vf_choose(6); n = cut == 0 ? w : cut == 1 ? w + 1 : cut == 2 ? w - 1 : cut == 3 ? last : cut == 4 ? last + 1 : nl; if (n == w + 1) b[w] = vf_u8(); { uint8_t *t = vf_dup(b, n); if (!n) { free(t); t = vf_buf(0); } free(b); b = t; }
#else
	size_t n = vf_choose(N + 1); uint8_t *b = malloc(n ? n : 1); if (!n) { free(b); b = vf_buf(0); }
	size_t nl = vf_choose(NL + 2); if (nl == NL + 1) nl = 255;	// owner length
	static const uint16_t cs[] = { 0, 1, 2, 3, 255, 256, 32768, 65535 }; uint16_t c = n >= nl + 11 ? cs[vf_choose(8)] : 0;
	// header arbitrary but for the owner length and count; then records whose lengths come from a list; the rest arbitrary
	size_t w = 0;
	while (w < n) {
		if (w == 0) b[w++] = (uint8_t)nl;
		else if (w < nl + 11) { b[w] = w == nl + 9 ? (uint8_t)c : w == nl + 10 ? (uint8_t)(c >> 8) : vf_u8(); w++; }
		else { size_t left = n - w < 2 ? 0 : n - w - 2; size_t k = vf_choose(9); size_t l = k < 4 ? k : k == 4 ? left : k == 5 ? left + 1 : k == 6 ? 255 : k == 7 ? 256 : 65535; if (k >= 4 && k <= 5) vf_assume(l > 3);
			b[w++] = (uint8_t)l; if (w < n) b[w++] = (uint8_t)(l >> 8); while (l-- && w < n) b[w++] = vf_u8(); }
	}
#endif
	uint8_t *keep = vf_dup(b, n);
	size_t live = vf_live();
	wdns_rrset_t rs; wdns_res r = wdns_deserialize_rrset(&rs, b, n); vf_observe(r);
	// reference
	size_t o = 0; int ok = 0; size_t cnt = 0;
	do { if (n < 1) break; o = 1 + b[0] + 10; if (n < o) break; cnt = b[o - 2] | (size_t)b[o - 1] << 8; size_t i; for (i = 0; i < cnt; i++) { if (n - o < 2) break; size_t l = b[o] | (size_t)b[o + 1] << 8; if (n - o - 2 < l) break; o += 2 + l; } ok = i == cnt; } while (0);
	vf_assert((r == wdns_res_success) == ok, "accepts exactly complete serialized RRsets");
	vf_assert(memcmp(b, keep, n) == 0, "the input is not changed");
	if (r == wdns_res_success && ok) {
		vf_witness("accepted");
		size_t p = 1 + (size_t)b[0];
		vf_assert(rs.name.len == b[0] && memcmp(rs.name.data, b + 1, b[0]) == 0, "owner");
		vf_assert(memcmp(&rs.rrtype, b + p, 2) == 0 && memcmp(&rs.rrclass, b + p + 2, 2) == 0 && memcmp(&rs.rrttl, b + p + 4, 4) == 0, "type, class, TTL");
		vf_assert(rs.n_rdatas == cnt, "count"); p += 10;
		for (size_t i = 0; i < cnt; i++) { size_t l = b[p] | (size_t)b[p + 1] << 8; vf_assert(rs.rdatas[i]->len == l && memcmp(rs.rdatas[i]->data, b + p + 2, l) == 0, "rdata"); vf_observe_bytes(rs.rdatas[i]->data, l); p += 2 + l; }
		if (cnt > 1) vf_witness("several");
		wdns_clear_rrset(&rs);
	} else vf_witness("rejected");
	vf_assert(vf_live() == live, "nothing left allocated");
	wdns_clear_rrset(&rs); vf_assert(vf_live() == live, "the result can be cleared again");
}
