// P43: calls in two threads, on separate or the same objects, give what they give alone, whatever the interleaving
#include "threads.h"
#define OUT 1200
static char out[2][OUT]; static size_t outn[2]; static uint8_t sym[2]; static wdns_message_t *shm; static wdns_rrset_t *shs; static uint8_t *shr; static int shtype, shlen; static uint8_t shpkt[64];
#define PKN 54
static void w(int t, const void *p, size_t n) { vf_assume(outn[t] + n < OUT); memcpy(out[t] + outn[t], p, n); outn[t] += n; }
static void ws(int t, const char *s) { if (!s) s = "(null)"; w(t, s, strlen(s) + 1); }
static void wf(int t, char *s) { ws(t, s); free(s); }
static void wn(int t, unsigned v) { uint8_t b[4] = { v >> 24, v >> 16, v >> 8, v }; w(t, b, 4); }
static void parse(int t, const char *s, unsigned type, unsigned cls) {
	uint8_t *rd = 0; size_t n = 0; wdns_res r = wdns_str_to_rdata(s, type, cls, &rd, &n); wn(t, r); if (r == wdns_res_success) { wn(t, n); w(t, rd, n); free(rd); } }
static void render(int t, const void *p, size_t n, unsigned type, unsigned cls) { uint8_t *d = malloc(n); memcpy(d, p, n); wf(t, wdns_rdata_to_str(d, n, type, cls)); free(d); }
static void name(const uint8_t *p, size_t n, wdns_name_t *nm) { nm->len = n; nm->data = malloc(n); memcpy(nm->data, p, n); }
// one call, or a few related ones; t selects slightly different data
static void op(int k, int t) {
	uint8_t c = sym[t];
	switch (k) {
	case 0: { char s[] = "1 0 1 AB 0P9MHAVE A"; s[9] = t ? 'c' : 'b'; s[11] = c; parse(t, s, 50, 1); break; }
	case 1: { char s[] = "257 3 8 AQIDBAUG"; s[8] = c; parse(t, s, 48, 1); break; }
	case 2: { char s[] = "1 a. alpn=h2,h3 port=53"; s[2] = c; parse(t, s, 64, 1); parse(t, t ? "2001:db8::1" : "::2", 28, 1); parse(t, "\"a\\032b\" c", 16, 1); parse(t, t ? "\\# 2 abcd" : "\\# 1 ff", 65280, 1); parse(t, t ? "A RRSIG TYPE300" : "NS", 62, 1); parse(t, "10.0.0.1 6 25 53", 11, 1); parse(t, t ? "1 2 3 0102" : "3 2 1 ff", 43, 1); break; }
	case 3: { uint8_t d[] = "\001\000\000\001\001\252\005\001\002\003\004\005\000\001\100"; d[7] = c; render(t, d, sizeof d - 1, 50, 1); d[6] = t; render(t, d, 9, 48, 1); break; }
	case 4: { uint8_t d[] = "\000\001\001a\000\000\001\000\003\002h2\000\003\000\002\000\065\000\004\000\004\001\002\003\004"; d[3] = c; render(t, d, sizeof d - 1, 64, 1); render(t, d, 6, 65280, 1); render(t, d, 5, t ? 99 : 16, 1); render(t, "\001\002\003\004\005\006\007\010\011\012\013\014\015\016\017\020", 16, t ? 28 : 1, 1); render(t, d, 8, 15, 1); render(t, d, 3, 41, 1); break; }
	case 5: { char s[] = "TXT"; s[2] = c; wn(t, wdns_str_to_rrtype(s)); wn(t, wdns_str_to_rrtype(t ? "TYPE300" : "TYPE7")); wn(t, wdns_str_to_rrclass(t ? "CH" : "in")); ws(t, wdns_rrtype_to_str(t ? 300 : 16)); ws(t, wdns_rrtype_to_str(c)); ws(t, wdns_rrclass_to_str(t ? 3 : 9)); break; }
	case 6: { uint16_t r = 7; wn(t, wdns_str_to_rcode(t ? "NXDOMAIN" : "FOO", &r)); wn(t, r); ws(t, wdns_rcode_to_str(t ? 99 : 3)); ws(t, wdns_opcode_to_str(t ? 4 : 9)); ws(t, wdns_res_to_str(t ? wdns_res_len : 200)); ws(t, wdns_get_version()); wn(t, wdns_get_version_number()); break; }
	case 7: { char s[] = "wWw.\\097b.Net"; s[1] = c; wdns_name_t n, m; char d[WDNS_PRESLEN_NAME]; uint8_t rev[WDNS_MAXLEN_NAME]; bool b = 0; size_t z = 0;
		for (int i = 0; i < 2; i++) { wdns_res r = (i ? wdns_str_to_name_case : wdns_str_to_name)(s, &n); wn(t, r); if (r != wdns_res_success) continue; wn(t, wdns_domain_to_str(n.data, n.len, d)); ws(t, d); wn(t, wdns_count_labels(&n, &z)); wn(t, z); wn(t, wdns_reverse_name(n.data, n.len, rev)); w(t, rev, n.len); wn(t, wdns_left_chop(&n, &m)); w(t, m.data, m.len); wn(t, wdns_is_subdomain(&n, &m, &b)); wn(t, b); wdns_downcase_name(&n); w(t, n.data, n.len); free(n.data); } break; }
	case 8: { wdns_rrset_t s; memset(&s, 0, sizeof s); name((const uint8_t *)"\001A\002bC", 6, &s.name); s.name.data[1] = c; s.rrtype = t ? 2 : 15; s.rrclass = 1; s.rrttl = 300 + t; s.n_rdatas = 3; s.rdatas = malloc(3 * sizeof *s.rdatas);
		for (int i = 0; i < 3; i++) { s.rdatas[i] = malloc(sizeof(wdns_rdata_t) + 8); s.rdatas[i]->len = 5; memcpy(s.rdatas[i]->data, t ? "\003Bcd\000" : "\000\001\001X", 5); s.rdatas[i]->data[1] = i == 1 ? 'A' : 3 - i; if (t) s.rdatas[i]->data[1] = 'Z' - i; }
		wn(t, wdns_sort_rrset(&s)); wn(t, wdns_downcase_rrset(&s)); uint8_t b[80]; size_t z = 0; wn(t, wdns_serialize_rrset(&s, 0, &z)); wn(t, z); vf_assume(z <= sizeof b); wn(t, wdns_serialize_rrset(&s, b, &z)); w(t, b, z); wdns_rrset_t q; memset(&q, 0, sizeof q); wn(t, wdns_deserialize_rrset(&q, b, z)); wf(t, wdns_rrset_to_str(&q, 1)); wdns_clear_rrset(&q); wdns_clear_rrset(&s); break; }
	case 9: { static const char p[] = "\022\064\201\200\000\001\000\002\000\000\000\001" "\001x\002yz\000\000\020\000\001" "\300\014\000\020\000\001\000\000\001\000\000\003\002ab" "\300\014\000\005\000\001\000\000\000\005\000\004\001a\300\016" "\000\000\051\020\000\000\000\200\000\000\014\000\017\000\002\000\005\000\012\000\002\001\002";
		uint8_t *b = malloc(sizeof p - 1); memcpy(b, p, sizeof p - 1); b[13] = c; b[1] = t; if (t) b[3] = 0x83; wdns_message_t m; wdns_res r = wdns_parse_message(&m, b, sizeof p - 1); wn(t, r); if (r == wdns_res_success) { wf(t, wdns_message_to_str(&m)); wdns_clear_message(&m); } free(b); break; }
	// the same object in both threads
	case 10: wf(t, wdns_message_to_str(shm)); break;
	case 11: wf(t, wdns_rrset_to_str(shs, 1)); { uint8_t b[80]; size_t z = 0; wn(t, wdns_serialize_rrset(shs, 0, &z)); vf_assume(z <= 80); wn(t, wdns_serialize_rrset(shs, b, &z)); w(t, b, z); wn(t, wdns_compare_rr_rrset(&shm->sections[1].rrs[0], shs)); } break;
	case 12: wf(t, wdns_rdata_to_str(shr, shlen, shtype, 1)); break;
	case 13: { size_t z; bool b = 0; wdns_name_t m; char d[WDNS_PRESLEN_NAME]; uint8_t rev[WDNS_MAXLEN_NAME]; wn(t, wdns_count_labels(&shs->name, &z)); wn(t, z); wn(t, wdns_left_chop(&shs->name, &m)); wn(t, wdns_is_subdomain(&shs->name, &m, &b)); wn(t, b); wn(t, wdns_domain_to_str(shs->name.data, shs->name.len, d)); ws(t, d); wn(t, wdns_reverse_name(shs->name.data, shs->name.len, rev)); w(t, rev, shs->name.len); break; }
	case 14: { wdns_message_t m; wdns_res r = wdns_parse_message(&m, shpkt, PKN); wn(t, r); if (r == wdns_res_success) { wf(t, wdns_message_to_str(&m)); wdns_clear_message(&m); } break; }
	}
}
static int ks[2];
static void thread(void *a) { int t = *(int *)a; op(ks[t], t); }
static const uint8_t vals[] = { 'a', 'V', '0', '\\', '.', 0x20, 'w', 0xe9 };
void vf_main(void) {
	size_t l0 = vf_live(); wdns_message_t msg; wdns_rrset_t set;
#ifdef SAME
	static const uint8_t shared[] = { SAME }; ks[0] = shared[vf_choose(sizeof shared)]; ks[1] = shared[vf_choose(sizeof shared)];
#else
	ks[0] = (int)vf_choose(10); ks[1] = (int)vf_choose(10);
#endif
	for (int t = 0; t < 2; t++) { sym[t] = vf_u8();
#ifdef SAME
		vf_assume(sym[t] == 'a');
#else
		vf_assume(t == 0 ? (sym[t] == 'a' || sym[t] == 'V' || sym[t] == '!') : sym[t] == 'q');
#endif
		}
#ifdef SAME
	static const char p[] = "\022\064\201\200\000\000\000\001\000\000\000\001" "\001X\002Yz\000\000\020\000\001\000\000\001\000\000\003\002ab" "\000\000\051\020\000\000\000\200\000\000\014\000\017\000\002\000\005\000\012\000\002\001";
	vf_assert(sizeof p == PKN, "size"); memcpy(shpkt, p, PKN); shpkt[PKN - 1] = 2;
	{ uint8_t *b = malloc(PKN); memcpy(b, shpkt, PKN); vf_assert(wdns_parse_message(&msg, b, PKN) == wdns_res_success, "the message is parsed"); free(b); }
	shm = &msg; shs = &msg.sections[1].rrsets[0]; static const uint16_t ty[] = { 50, 64, 16, 65280 }; static const char *const rd[] = { "\001\000\000\001\001\252\005\001\002\003\004\005\000\001\100", "\000\001\001a\000\000\001\000\003\002h2\000\003\000\002", "\002a\"\003bcd\000\000\000\000\000\000\000\000", "0123456789abcde" };
	int k = (int)vf_choose(4); shtype = ty[k]; shlen = 15; shr = malloc(15); memcpy(shr, rd[k], 15);
	vf_shared(shs->name.data, shs->name.len); vf_shared(shs, sizeof *shs); vf_shared(shr, 15); vf_shared(shpkt, PKN); vf_shared(&msg, sizeof msg); vf_shared(shs->rdatas[0], sizeof(wdns_rdata_t) + 3); vf_shared(msg.edns.options, sizeof(wdns_rdata_t) + 12);
#endif
	int a0 = 0, a1 = 1; vf_parallel(thread, &a0, thread, &a1, PRE);
	if (vf_switched) vf_witness("preempted");
	char *got[2]; size_t gn[2];
	for (int t = 0; t < 2; t++) { gn[t] = outn[t]; got[t] = malloc(OUT); memcpy(got[t], out[t], gn[t]); outn[t] = 0; op(ks[t], t); }
	for (int t = 0; t < 2; t++) { vf_assert(gn[t] == outn[t], "a call in another thread does not change what a call gives"); vf_assert(memcmp(got[t], out[t], gn[t]) == 0, "a call in another thread does not change what a call gives"); vf_observe_bytes(got[t], gn[t] < 64 ? gn[t] : 64); free(got[t]); }
#ifdef SAME
	free(shr); wdns_clear_message(&msg);
#endif
	vf_assert(vf_live() == l0, "nothing is leaked");
}
