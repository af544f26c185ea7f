// parse_message against the reference reading of the message format.
#include "refmsg.h"
#include "flds.h"
static void run(const uint8_t *p, size_t len) {
	wdns_message_t m; size_t live = vf_live();
	uint8_t *keep = vf_dup(p, len);
	wdns_res r = wdns_parse_message(&m, p, len); vf_observe(r == wdns_res_success);
	live++;
	if (CHK & CK_SAFE) { vf_assert(memcmp(p, keep, len) == 0, "the packet is not changed"); if (r == wdns_res_success) ref_walk(&m); }
	if (CHK & 31) {
		struct ref_msg *w = malloc(sizeof *w); live++;
		int ok = ref_message(p, len, w);
		CKA(CK_ACCEPT, (r == wdns_res_success) == ok, "accepts exactly the well-formed messages");
		if (r == wdns_res_success && ok) { ref_compare(w, &m); if (w->opt) vf_witness("edns"); }
	}
	if (r == wdns_res_success) vf_witness("accepted"); else vf_witness("rejected");
	if (r == wdns_res_success) wdns_clear_message(&m);
	CKA(CK_LEAK, vf_live() == live, "nothing left allocated");
	if (CHK & CK_LEAK) wdns_clear_message(&m);	// harmless after a failure and after a clear
	CKA(CK_LEAK, vf_live() == live, "clearing twice frees nothing twice");
}
void vf_main(void) {
#if MODE == 0		// arbitrary octets
	size_t len = vf_choose(N + 1); run(vf_buf(len), len);
#elif MODE == 1		// arbitrary octets after a header whose counts are small
	q = malloc(12 + N); vf_fill(q, 4); qn = 4; for (int s = 0; s < 4; s++) put16(vf_choose(CNT + 1));
	size_t len = vf_choose(N + 1); vf_fill(q + qn, len); run(vf_dup(q, 12 + len), 12 + len);
#elif MODE == 2		// one record of any type and class; L octets of rdata and possibly one more after it
	q = malloc(64 + L); put16(0x1234); put16(0x8180); put16(0); put16(1); put16(0); put16(0);
#ifdef OWNER	// an owner of two labels of which rdata may point into
	put(1); put('a'); put(1); put('b'); put(0);
#else
	put(0);
#endif
#ifdef TYPES
	static const uint16_t sel[] = { TYPES }; put16(sel[vf_choose(sizeof sel / sizeof *sel)]);
#else
	size_t hi = vf_choose(3); if (hi < 2) { put((uint8_t)hi); put((uint8_t)vf_concrete(vf_u8())); } else { uint8_t h = vf_u8(); vf_assume(h > 1); put(h); put(vf_u8()); }
#endif
#ifdef CLASS
	put16(CLASS);
#else
	if (vf_choose(2)) put16(1); else { uint8_t h = vf_u8(), l = vf_u8(); vf_assume((h != 0) | (l != 1)); put(h); put(l); }
#endif
#ifdef NOTTL
	put16(0); put16(9);
#else
	put16(vf_u16()); put16(vf_u16());
#endif
	size_t rl = LMIN + vf_choose(L + 1 - LMIN), more = vf_choose(2);
	put16(rl); for (size_t i = 0; i < rl + more; i++) put(vf_u8());
	run(vf_dup(q, qn), qn);
#elif MODE == 6		// one record of any type, its rdata built field by field, then cut or extended by an octet
	q = malloc(512); put16(0x1234); put16(0x8180); put16(0); put16(1); put16(0); put16(0); put(1); put('o'); put(0);
	const struct ref_desc *d = &ref_descs[vf_choose(sizeof ref_descs / sizeof *ref_descs)];
	put16(d->type); put16(1); put16(0); put16(9); size_t lp = qn; qn += 2;
	put_fields(d->f, 12);
	size_t rl = qn - lp - 2, cut = vf_choose(3); if (cut == 1 && rl) rl--; if (cut == 2) { rl++; put(vf_u8()); }
	q[lp] = (uint8_t)(rl >> 8); q[lp + 1] = (uint8_t)rl; if (vf_choose(2)) qn = lp + 2 + rl;
	run(vf_dup(q, qn), qn);
#elif MODE == 7		// header, a question and up to RRS records per section; cut short or followed by other octets
	q = malloc(64 + 4 * RRS * 64); put16(vf_u16()); put16(vf_u16()); int cn[4], al = (int)vf_choose(2); for (int s = 0; s < 4; s++) { cn[s] = (int)vf_choose((s ? RRS : 1) + 1); put16((unsigned)cn[s] + (s == 3 ? al : 0)); }
	for (int s = 0; s < 4; s++) for (int i = 0; i < cn[s]; i++) {
		switch (qn > 12 ? 1 + vf_choose(2) : vf_choose(2)) { case 0: put(0); break; case 1: put(1); put(vf_u8()); put(0); break; case 2: put(192); put(12); break; }
		static const uint16_t ty[] = { 1, 16, 5 }; int t = 1 + (int)vf_choose(2); put16(ty[t]); put16(1);
		if (!s) continue;
		put16(vf_u16()); put16(vf_u16());
		if (t == 0) { put16(4); for (int k = 0; k < 4; k++) put(vf_u8()); } else if (t == 1) { put16(2); put(1); put(vf_u8()); } else { put16(2); put(192); put(12); }
	}
	size_t cut = vf_choose(8); if (cut <= qn) qn -= cut; else qn = 0; if (!cut) for (size_t k = vf_choose(2); k; k--) put(vf_u8());
	run(vf_dup(q, qn), qn);
#elif MODE == 3		// RRS records in one section: owners of one octet or none, types and classes from two values, any TTL
	q = malloc(64 + RRS * 32); int s = 1 + (int)vf_choose(3); put16(7); put16(0); for (int i = 0; i < 4; i++) put16(i == s ? RRS : 0);
	for (int i = 0; i < RRS; i++) {
		if (vf_choose(2)) { put(1); uint8_t c = vf_u8(); put(c); put(0); } else put(0);
		put16(vf_choose(2) ? 16 : 99); put16(vf_choose(2) ? 1 : 3);
#ifdef TTL
		put16(vf_u16()); put16(vf_u16());
#else
		put(0); put(0); put(0); put(vf_u8());
#endif
		put16(2); put(1); put(vf_u8());
	}
	run(vf_dup(q, qn), qn);
#elif MODE == 8		// RRS records of four sets in any order
	q = malloc(64 + RRS * 32); int s = 1; put16(7); put16(0); for (int i = 0; i < 4; i++) put16(i == s ? RRS : 0);
	for (int i = 0; i < RRS; i++) {
		size_t k = vf_choose(5); if (k == 4) put(0); else { put(1); put("aAba"[k]); put(0); }
		put16(k == 3 ? 99 : 16); put16(1); put16(0); put16(9 - i); put16(2); put(1); put(vf_u8());
	}
	run(vf_dup(q, qn), qn);
#elif MODE == 4		// OPT records: question, additional (twice) with other records around
	q = malloc(256); put16(vf_u16()); put16(vf_u16()); int qopt = (int)vf_choose(2), before = (int)vf_choose(2), n = (int)vf_choose(3), sec = 1 + (int)vf_choose(3);
	put16(qopt ? 1 : 0); for (int i = 1; i < 4; i++) put16(i == sec ? before + n : 0);
	if (qopt) { put(0); put16(41); put16(vf_u16()); }
	if (before) { put(0); put16(16); put16(1); put16(0); put16(5); put16(1); put(0); }
	for (int i = 0; i < n; i++) { put(0); put16(41); put16(vf_u16()); put16(vf_u16()); put16(vf_u16()); size_t k = vf_choose(5); put16(k); for (size_t j = 0; j < k; j++) put(vf_u8()); }
	run(vf_dup(q, qn), qn);
#elif MODE == 9		// many records in one section: owners the same, in turns or all different; one record with an arbitrary TTL (or an OPT record), the last with an arbitrary owner among some
	static const uint16_t num[] = { 2, 7, 9, 16, 17, 33, 65, 128, 255, 256, 257, 300 }; size_t ni = vf_choose(sizeof num / sizeof *num); unsigned R = num[ni];
	int s = (int)vf_choose(3); if (s == 2) s = 3; unsigned K = (unsigned)vf_choose(3); K = K == 0 ? 1 : K == 1 ? 9 : R; if (R > 70 && K > 9) K = 9; if (R > 70 && K == 9) vf_assume((R & 1) == 0 || s == 0);
	if (K == 9) vf_assume(R > 9);
	unsigned at = (unsigned)vf_choose(3); at = at == 0 ? 0 : at == 1 ? R / 2 : R - 1; int opt = s == 3 && vf_choose(2), how = (int)vf_choose(3); if (K == 1) vf_assume(how == 0);
	q = malloc(64 + R * 32); put16(7); put16(0x8183); for (int i = 0; i < 4; i++) put16(i == s ? R : 0);
	for (unsigned i = 0; i < R; i++) {
		unsigned k = i % K; if (i == R - 1 && K > 1) k = how == 0 ? 0 : how == 1 ? K / 2 : k;
		if (opt && i == at) put(0); else { put(2); put((uint8_t)('A' + k / 26 + (i & 1) * 32)); put((uint8_t)('a' + k % 26)); put(0); }
		put16(opt && i == at ? 41 : 16); put16(1); if (!s) continue;
		if (i == at) { put16(vf_u16()); put16(vf_u16()); } else { put16(1); put16(1000 + i); }
		put16(2); put(1); put(i == at ? vf_u8() : (uint8_t)i);
	}
	if (R > 250) vf_witness("many"); run(vf_dup(q, qn), qn);
#elif MODE == 10	// long rdata, some octets of it arbitrary, exact or one octet short or long
	static const uint16_t ls[] = { 127, 128, 129, 255, 256, 257, 4095, 4096, 32767, 32768, 65000 }; size_t big = 0; q = malloc(70000); put16(1); put16(0); put16(0); put16(1); put16(0); put16(0); put(1); put('o'); put(0);
	int kind = (int)vf_choose(6); static const uint16_t ty[] = { 10, 16, 16, 47, 64, 48 }; put16(kind == 0 && vf_choose(2) ? 65280 : ty[kind]); put16(1); put16(0); put16(9); size_t lp = qn; qn += 2;
	if (kind == 0) { big = ls[vf_choose(11)]; memset(q + qn, 0x5a, big); q[qn] = vf_u8(); q[qn + big - 1] = vf_u8(); qn += big; }
	else if (kind == 1) { static const uint16_t ns[] = { 3, 8, 15, 16, 17, 32, 33, 64, 65, 255, 256, 257 }; size_t n = ns[vf_choose(12)], l = vf_choose(2); for (size_t i = 0; i < n; i++) { put((uint8_t)l); if (l) put(i + 2 > n ? vf_u8() : 'x'); } }
	else if (kind == 2) { put(1); put(vf_u8()); size_t l = vf_choose(256); put((uint8_t)l); for (size_t i = 0; i < l; i++) put(i + 1 == l ? vf_u8() : 'y'); if (vf_choose(2)) { put(255); for (int i = 0; i < 255; i++) put('z'); } }
	else if (kind == 3) { put(0); size_t n = vf_choose(4); if (n == 3) n = 200; for (size_t i = 0; i < n; i++) { put((uint8_t)i); size_t l = n > 2 ? 1 : vf_choose(34); put((uint8_t)l); for (size_t j = 0; j < l; j++) put(j ? 1 : vf_u8()); } }
	else if (kind == 4) {
		put16(1); put(0); size_t n = 1 + vf_choose(3); if (n == 3) n = 70;
		for (size_t i = 0; i < n; i++) {
			size_t k = vf_choose(n > 2 ? 1 : 4); static const uint16_t key[] = { 7, 1, 4, 5 }; put16(n > 2 ? 100 + i : key[k]); size_t l = n > 2 ? 1 : k == 2 ? 252 + 4 * vf_choose(3) : ls[vf_choose(10)]; put16(l);
			if (k == 1) { size_t left = l, c = vf_choose(2) ? 255 : 1 + vf_choose(2) * 126; while (left) { size_t u = left - 1 < c ? left - 1 : c; put((uint8_t)u); memset(q + qn, 'h', u); qn += u; left -= 1 + u; } } else { memset(q + qn, 'v', l); q[qn + l - 1] = vf_u8(); qn += l; }
		}
	}
	else { put16(257); put(3); put(8); big = ls[vf_choose(10)]; memset(q + qn, 0x33, big); q[qn + big - 1] = vf_u8(); qn += big; }
	size_t rl = qn - lp - 2, cut = vf_choose(3); if (cut == 1) rl--; if (cut == 2) { rl++; put(vf_u8()); }
	vf_assume(rl <= 65535); q[lp] = (uint8_t)(rl >> 8); q[lp + 1] = (uint8_t)rl; if (rl > 32768) vf_witness("long"); run(vf_dup(q, qn), qn);
#elif MODE == 5		// rdata near 65535 octets with a compressed name that grows: the expanded rdata may not fit
	{ size_t big = 65535 - vf_choose(3) * 100, nl = 2 + vf_choose(3) * 40; q = malloc(12 + 300 + 16 + 65535);
	put16(1); put16(0); put16(1); put16(1); put16(0); put16(0);
	for (int i = 0; i < 3; i++) { put((uint8_t)nl / 2); for (size_t j = 0; j < nl / 2; j++) put('x'); } put(0); put16(1); put16(1);
	put(192); put(12); put16(30); put16(1); put16(0); put16(0); put16(big);
	size_t at = qn; memset(q + at, 0, big); q[at] = 192; q[at + 1] = 12; qn += big;
	run(vf_dup(q, qn), qn); }
#endif
}
