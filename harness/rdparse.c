// Text -> rdata.  The text: fixed fields, then one field with arbitrary characters, then fixed fields again.
#include "rdtext.h"
#include "rdfix.h"
#include <strings.h>
static int sp(char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }		// isspace
static int stop(char c) { return (c == ' ') | (c == '\t') | (c == '\r') | (c == '\n') | (c == 0); }	// ends a word
static int dg(char c) { return (c >= '0') & (c <= '9'); }
static int xd(char c) { return dg(c) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
static unsigned xv(char c) { unsigned u = (unsigned char)c; return (u & 15) + 9 * (u >> 6); }
static uint8_t *w; static size_t wn;
static void wc(unsigned c) { w[wn++] = (uint8_t)c; }
// A field read from *s.  1: well formed, its octets appended; 0: must be refused; 2: not judged
static int number(const char **s, size_t octets) {
	const char *p = *s; uint64_t v = 0; size_t n = 0; while (!stop(*p)) { if (!dg(*p)) return 0; if (n++ < 18) v = v * 10 + (uint64_t)(*p - '0'); p++; }
	if (n > 18) return 2; if (v >> (8 * octets)) return 0;
	while (octets--) wc((unsigned)(v >> 8 * octets)); *s = p; return 1;
}
static char *word(const char **s) { size_t n = 0; while (!stop((*s)[n])) n++; char *t = malloc(n + 1); memcpy(t, *s, n); t[n] = 0; *s += n; return t; }
static int string(const char **s) {	// a string, quoted or not, without its length
	const char *p = *s; int quoted = *p == '"'; if (quoted) p++;
	for (;; p++) {
		if (!*p) { if (quoted) return 0; break; }
		if (quoted && *p == '"') { p++; break; }
		if (!quoted && sp(*p)) break;
		if (*p == '\\') {
			p++;
			if (*p == '"' || *p == '\\') wc((unsigned char)*p);
			else { if (!(dg(p[0]) && dg(p[1]) && dg(p[2]))) return 0; unsigned v = (unsigned)(p[0] - '0') * 100 + (unsigned)(p[1] - '0') * 10 + (unsigned)(p[2] - '0'); if (v > 255) return 0; wc(v); p += 2; }
		} else if ((*p >= ' ') & (*p <= '~')) wc((unsigned char)*p); else return 0;
	}
	if (p == *s) return 0;
	*s = p; return 1;
}
static int lstring(const char **s) { size_t at = wn; wc(0); int r = string(s); if (r && wn - at - 1 > 255) return 0; w[at] = (uint8_t)(wn - at - 1); return r; }
static int svcvalue(unsigned k, char *v, size_t n);
static int svc(const char **s) {
	const char *p = *s;
	while (*p) {
		if (*p == ' ') { p++; continue; }
		const char *e = p; while (*e && *e != '=' && *e != ' ') e++;
		size_t kn = (size_t)(e - p); unsigned k = 65535;
		for (unsigned i = 0; i < 7; i++) if (strlen(spk[i]) == kn && memcmp(p, spk[i], kn) == 0) k = i;
		if (k == 65535 && kn > 3 && memcmp(p, "key", 3) == 0) { uint64_t x = 0; size_t i; for (i = 3; i < kn && i < 20 && dg(p[i]); i++) x = x * 10 + (uint64_t)(p[i] - '0'); if (i < kn) return i < 20 ? 0 : 2; if (x >= 65535) return 0; k = (unsigned)x; }
		if (k == 65535) return 0;
		wc(k >> 8); wc(k & 255); size_t at = wn; wc(0); wc(0);
		if (*e != '=') { if (k != 2) return 0; p = e; continue; }
		if (k == 2) return 0;
		e++; int r = string(&e); if (r != 1) return r;
		size_t n = wn - at - 2; char *v = malloc(n + 1); memcpy(v, w + at + 2, n); v[n] = 0; wn = at + 2;
		r = svcvalue(k, v, n); free(v); if (r != 1) return r;
		n = wn - at - 2; w[at] = (uint8_t)(n >> 8); w[at + 1] = (uint8_t)n; p = e;
	}
	*s = p; return 1;
}
static int svcvalue(unsigned k, char *v, size_t n) {
	if (k == 1) {
		size_t at = wn; wc(0);
		for (size_t i = 0; i < n; i++) {
			if (v[i] == '\\') { if (i + 1 >= n || (v[i + 1] != '\\' && v[i + 1] != ',')) return 0; wc((unsigned char)v[++i]); }
			else if (v[i] == ',') { if (wn == at + 1) return 0; w[at] = (uint8_t)(wn - at - 1); at = wn; wc(0); }
			else wc((unsigned char)v[i]);
			if (wn - at - 1 > 255) return 0;
		}
		if (wn == at + 1) return 0; w[at] = (uint8_t)(wn - at - 1); return 1;
	}
	if (k > 6) { for (size_t i = 0; i < n; i++) wc((unsigned char)v[i]); return 1; }
	if (n == 0) return 0;
	for (size_t i = 0; i < n; i++) if (v[i] == 0) return 0;		// no value of these kinds contains such an octet
	if (k == 3) { uint64_t x = 0; for (size_t i = 0; i < n; i++) { if (!dg(v[i])) return 0; if (i < 18) x = x * 10 + (uint64_t)(v[i] - '0'); } if (n > 18) return 2; if (x > 65535) return 0; wc((unsigned)(x >> 8)); wc((unsigned)(x & 255)); return 1; }
	if (k == 5) return 2;
	if (v[0] == ',' || v[n - 1] == ',') return 2;		// empty items of a list are not judged
	for (size_t i = 0; i + 1 < n; i++) if (v[i] == ',' && v[i + 1] == ',') return 2;
	for (char *t = v, *e; t; t = e) {
		e = t; while (*e && *e != ',') e++; if (*e) *e++ = 0; else e = 0;
		if (k == 0) { size_t kn = strlen(t); unsigned x = 65535; for (unsigned i = 0; i < 7; i++) if (!strcmp(t, spk[i])) x = i;
			if (x == 65535) { if (kn < 4 || memcmp(t, "key", 3)) return 0; uint64_t y = 0; for (size_t i = 3; i < kn; i++) { if (!dg(t[i])) return 0; if (i > 20) return 2; y = y * 10 + (uint64_t)(t[i] - '0'); } if (y >= 65535) return 0; x = (unsigned)y; }
			wc(x >> 8); wc(x & 255); }
		else { uint8_t a[16]; if (inet_pton(k == 4 ? AF_INET : AF_INET6, t, a) != 1) return 0; for (int i = 0; i < (k == 4 ? 4 : 16); i++) wc(a[i]); }
	}
	return 1;
}
static int readf(char f, const char **s) {
	const char *p = *s; int r = 1;
	switch (f) {
	case '1': return number(s, 1); case '2': return number(s, 2); case '4': return number(s, 4);
	case 'N': { char *t = word(s); wdns_name_t nm = { 0, 0 }; if (wdns_str_to_name_case(t, &nm) != wdns_res_success) r = 0; else { for (size_t i = 0; i < nm.len; i++) wc(nm.data[i]); free(nm.data); } free(t); return r; }	// property P13
	case 't': { char *t = word(s); unsigned v = wdns_str_to_rrtype(t); r = v ? 1 : strcasecmp(t, "TYPE0") ? 0 : 2; wc(v >> 8); wc(v & 255); free(t); return r; }	// property P26
	case 'a': case 'G': { char *t = word(s); uint8_t a[16]; r = inet_pton(f == 'a' ? AF_INET : AF_INET6, t, a) == 1; if (r) for (int i = 0; i < (f == 'a' ? 4 : 16); i++) wc(a[i]); free(t); return r; }
	case 'S': return lstring(s);
	case 'R': while (*p) { if (sp(*p)) { p++; continue; } r = lstring(&p); if (r != 1) return r; } *s = p; return 1;
	case 'q': { size_t n = strlen(p); if (n < 3 || *p != '"' || p[n - 1] != '"') return n == 2 && *p == '"' && p[1] == '"' ? 2 : 0; r = string(&p); if (r == 1 && *p) return 2; *s = p; return r; }
	case 'B': for (; *p; p += 2) { if (sp(*p)) return 2; if (!xd(p[0]) || !xd(p[1])) return p[1] && sp(p[1]) ? 2 : 0; wc(xv(p[0]) << 4 | xv(p[1])); } *s = p; return 1;
	case '6': case '8': { int n = f - '0'; if (strlen(p) != (size_t)(3 * n - 1)) return 0; for (int i = 0; i < n; i++) { if (!xd(p[3 * i]) || !xd(p[3 * i + 1]) || (i + 1 < n && p[3 * i + 2] != '-')) return 0; wc(xv(p[3 * i]) << 4 | xv(p[3 * i + 1])); } *s = p + strlen(p); return 1; }
	case 'l': { char *t = word(s); size_t n = strlen(t); if (n == 1 && *t == '-') wc(0); else if (n % 2 || n > 510) r = 0; else { wc((unsigned)(n / 2)); for (size_t i = 0; i < n && r; i += 2) { if (!xd(t[i]) || !xd(t[i + 1])) r = 0; else wc(xv(t[i]) << 4 | xv(t[i + 1])); } } free(t); return r; }
	case 'x': { char *t = word(s); size_t n = strlen(t);
			if (n == 1) { r = *t == '0' ? 1 : 2; wc(0); }
			else { unsigned acc = 0, bits = 0; size_t at = wn; wc(0); for (size_t i = 0; i < n; i++) { unsigned u = (unsigned char)t[i], v; if (u == '=') { r = 2; break; } v = dg(t[i]) ? u - '0' : ((u | 32) >= 'a') & ((u | 32) <= 'v') ? (u | 32) - 'a' + 10 : 99; if (v == 99) { r = 0; break; } acc = acc << 5 | v; bits += 5; if (bits >= 8) { bits -= 8; wc(acc >> bits & 255); } acc &= 255; }
				if (r == 1 && (n % 8 == 1 || n % 8 == 3 || n % 8 == 6)) r = 2; if (wn - at - 1 > 255) r = 0; w[at] = (uint8_t)(wn - at - 1); }
			free(t); return r; }
	case 'P': { size_t at = wn; r = number(s, 1); if (r != 1) return r; unsigned b = (unsigned)vf_concrete(w[at]); if (b > 128) return 0; while (sp(**s)) ++*s; if (!**s) return b == 128 ? 2 : 0;
			const char *save = *s; char *t = word(s); uint8_t a[16]; int okk = inet_pton(AF_INET6, t, a) == 1; free(t);
			if (okk) { for (int i = 16 - (int)(135 - b) / 8; i < 16; i++) wc(a[i]); if (b == 0) { while (sp(**s)) ++*s; if (**s) return 0; } } else if (b == 128) *s = save; else return 0; return 1; }
	case 'T': { unsigned v[16]; size_t n = 0; while (*p) { if (sp(*p)) { p++; continue; } char *t = word(&p); unsigned x = wdns_str_to_rrtype(t); if (!x && strcasecmp(t, "TYPE0")) { free(t); return 0; } free(t); v[n++] = (unsigned)vf_concrete(x); }
			for (unsigned win = 0; win < 256; win++) { unsigned char m[32]; unsigned len = 0; memset(m, 0, 32); for (size_t i = 0; i < n; i++) if (v[i] >> 8 == win) { unsigned lo = v[i] & 255; m[lo / 8] |= (unsigned char)(128 >> lo % 8); if (lo / 8 + 1 > len) len = lo / 8 + 1; } if (len) { wc(win); wc(len); for (unsigned i = 0; i < len; i++) wc(m[i]); } }
			*s = p; return 1; }
	case 'V': return svc(s);
	case 'b': return 2;
	}
	return 2;
}
static int reading(const char *f, const char *s) {
	for (; *f; f++) { while (sp(*s)) s++; if (!*s) return 1; int r = readf(*f, &s); if (r != 1) return r; }
	return 1;
}
// an example of each field, by number; 0 when there are no more
static const char *example(char f, size_t i) {
	static const char *const E1[] = { "7", "255", "300", 0 }, *const E2[] = { "10", "65535", "70000", 0 }, *const E4[] = { "1", "4294967295", "5000000000", 0 }, *const EN[] = { "a.", "a\\.b.c", ".", "x\\200", 0 }, *const Ea[] = { "10.2.3.4", "255.255.255.255", 0 },
		*const EG[] = { "::", "1::2", "1:2:3:4:5:6:7:8", "::ffff:1.2.3.4", 0 }, *const E6[] = { "01-23-45-67-89-aB", 0 }, *const E8[] = { "01-23-45-67-89-aB-cD-eF", 0 }, *const ES[] = { "ab", "\"a b\"", "\"\"", "\"\\200\\\"\"", 0 }, *const ER[] = { "ab \"c d\"", "\"\" \"x\"", 0 },
		*const Eq[] = { "\"a b\"", "\"\\\"\"", "\"\\200\"", 0 }, *const EB[] = { "0aF9", "12345678", 0 }, *const Eb[] = { "QUJD", "QQ==", 0 }, *const El[] = { "-", "aB09", 0 }, *const Ex[] = { "0", "2t7b4g4vsa5smi47k61mv5bv1a22bojr", "04", 0 }, *const Et[] = { "MX", "TYPE300", "TYPE0", 0 },
		*const EP[] = { "64 ::1:2", "128", "121 ::ff", "0 1::2", "128 ::", 0 }, *const ET[] = { "A MX", "TYPE65535 NS", "TYPE0 AAAA A A", "URI CAA", 0 },
		*const EV[] = { "port=53", "alpn=\"h2,h3\"", "alpn=\"a\\\\\\\\\\\\,b\"", "mandatory=port,key9", "no-default-alpn port=1", "ipv4hint=1.2.3.4,5.6.7.8", "ipv6hint=::1,2::", "ech=QUJD", "key700=\"a b\"", "key7=\\200", "key65534=\"\"", "port=5\\0011", "mandatory=port\\001x", "ipv4hint=1.2.3.4\\001x", "ech=QUJD\\001x", "alpn=h\\001x", 0 };
	const char *const *t = 0; switch (f) { case '1': t = E1; break; case '2': t = E2; break; case '4': t = E4; break; case 'N': t = EN; break; case 'a': t = Ea; break; case 'G': t = EG; break; case '6': t = E6; break; case '8': t = E8; break; case 'S': t = ES; break; case 'R': t = ER; break;
		case 'q': t = Eq; break; case 'B': t = EB; break; case 'b': t = Eb; break; case 'l': t = El; break; case 'x': t = Ex; break; case 't': t = Et; break; case 'P': t = EP; break; case 'T': t = ET; break; case 'V': t = EV; break; }
	return t[i];
}
void vf_main(void) {
	size_t live = vf_live();
#ifdef TYPES
	static const uint16_t sel[] = { TYPES }; uint16_t type = sel[vf_choose(sizeof sel / sizeof *sel)]; size_t t = 0; while (tds[t].type != type) t++;
#else
	size_t t = vf_choose(NTD); uint16_t type = tds[t].type;
#endif
	const char *f = tds[t].f; size_t nf = strlen(f);
#ifdef AF
	size_t af = AF;
#else
	size_t af = vf_choose(nf);
#endif
	char *b = malloc(700); size_t n = 0;
#define PUTS(x) do { const char *x_ = (x); while (*x_) b[n++] = *x_++; } while (0)
	for (size_t i = 0; i < nf; i++) {
		if (i) b[n++] = ' ';
		if (i != af) { PUTS(example(f[i], 0)); continue; }
#if MODE == 0		// any characters
		for (size_t k = vf_choose(N + 1); k; k--) { b[n] = (char)vf_u8(); vf_assume(b[n] != 0); n++; }
#ifdef CUT
		break;
#endif
#elif MODE == 2		// a parameter with any characters in its value
		static const char *const K[] = { "alpn=", "alpn=\"", "alpn=h2,", "alpn=a\\\\", "port=", "port=6553", "mandatory=", "mandatory=port,key", "mandatory=ech,", "ipv4hint=1.2.3.", "ipv4hint=9.9.9.9,1.1.1.", "ipv6hint=1:2:3:4:5:6:7:", "ipv6hint=::1,:", "ech=QUJDQ", "key9=", "key9=\"", "key6553", "key", "no-default-alpn", "port=1 no-default-alpn " };
		PUTS(K[vf_choose(sizeof K / sizeof *K)]); for (size_t k = vf_choose(N + 1); k; k--) { b[n] = (char)vf_u8(); vf_assume(b[n] != 0); n++; }
		static const char *const A[] = { "", "\"", " port=7" }; PUTS(A[vf_choose(3)]);
#elif MODE == 3		// an application protocol identifier about as long as may be, with an arbitrary or escaped octet in it
		PUTS("alpn=\"h2,"); size_t at = vf_choose(4), l = 253 + vf_choose(6), how = vf_choose(4); at = at == 0 ? 0 : at == 1 ? 100 : l + 1 - at;
		for (size_t k = 0; k < l; k++) if (k != at) b[n++] = 'a'; else if (how == 0) { b[n] = (char)vf_u8(); vf_assume(b[n] != 0); n++; } else PUTS(how == 1 ? "\\\\," : how == 2 ? "\\\\\\\\" : "\\200");
		PUTS(vf_choose(2) ? "\"" : ",h3\"");
#elif MODE == 4		// strings, salts and hashes about as long as may be, with an arbitrary or escaped character
		size_t l, at, how = 0; char base = 'a'; int quoted = 0;
		if (f[i] == 'S' || f[i] == 'R') { l = 253 + vf_choose(5); how = vf_choose(3); quoted = (int)vf_choose(2); } else if (f[i] == 'l') { l = 507 + vf_choose(7); } else if (f[i] == 'x') { l = 405 + vf_choose(8); base = '7'; } else { vf_assume(0); l = 0; }
		at = vf_choose(3); at = at == 0 ? 0 : l - at; if (quoted) b[n++] = '"';
		for (size_t k = 0; k < l; k++) if (k != at) b[n++] = base; else if (how == 0) { b[n] = (char)vf_u8(); vf_assume(b[n] != 0); n++; } else PUTS(how == 1 ? "\\200" : "\\\"");
		if (quoted) b[n++] = '"'; if (f[i] == 'R') PUTS(vf_choose(2) ? " b" : "");
#else			// an example with one character replaced, removed or added
		size_t c = 0; while (example(f[i], c)) c++;
		const char *e = example(f[i], vf_choose(c)); size_t el = strlen(e), at = vf_choose(el + 1), how = vf_choose(3);
		for (size_t k = 0; k <= el; k++) { if (k == at) { if (how < 2) { b[n] = (char)vf_u8(); vf_assume(b[n] != 0); n++; } if (how != 1) continue; } if (e[k]) b[n++] = e[k]; }
#endif
	}
	b[n] = 0; char *s = (char *)vf_dup(b, n + 1); free(b);
	uint8_t *rd = (uint8_t *)1; size_t len = 12345; wdns_res r = wdns_str_to_rdata(s, type, 1, &rd, &len); vf_observe(r);
	vf_assert((r == wdns_res_success) || (rd == (uint8_t *)1 && len == 12345), "nothing is returned with an error");
	if (r == wdns_res_success) { vf_assert(!len || vf_is_init(rd, len), "the data is initialised"); vf_observe(len); vf_observe_bytes(rd, len); }
	w = malloc(600); wn = 0; int j = reading(f, s);
	if (j == 0) vf_assert(r != wdns_res_success, "a field that is not in its format is refused");
	if (j == 1) { vf_assert(r == wdns_res_success, "a well-formed text is accepted"); if (r == wdns_res_success) { vf_assert(len == wn, "length of the data"); vf_assert(memcmp(rd, w, wn) == 0, "each field has the value its text denotes"); } }
#ifdef MSG		// the message parser accepts what the text parser makes, and keeps it
	if (r == wdns_res_success && j == 1) {
		uint8_t *m = malloc(12 + 11 + len); q = m; qn = 0; put16(1); put16(0); put16(0); put16(1); put16(0); put16(0); put(0); put16(type); put16(1); put16(0); put16(0); put16((unsigned)len); memcpy(m + qn, rd, len);
		wdns_message_t msg; vf_assert(wdns_parse_message(&msg, m, 23 + len) == wdns_res_success, "the message parser accepts the data");
		if (msg.sections[1].n_rrs == 1) { wdns_rdata_t *x = msg.sections[1].rrs[0].rdata; vf_assert(x->len == len && memcmp(x->data, rd, len) == 0, "the message parser keeps the data"); }
		wdns_clear_message(&msg); free(m); vf_witness("parsed");
	}
#endif
	free(w); free(s); if (r == wdns_res_success) free(rd);
	vf_assert(vf_live() == live, "nothing is leaked");
	if (r == wdns_res_success) vf_witness("accepted"); else vf_witness("rejected");
}
