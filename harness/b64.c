// base64: encoding in pieces gives the RFC 4648 text, decoding it in pieces gives the octets back
#include "vf.h"
#include "b64_encode.h"
#include "b64_decode.h"
static const char abc[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
void vf_main(void) {
#if MODE == 0
#ifdef LONG	// fixed octets but for two adjacent ones
#define CUT(n) (vf_choose(2) ? (n) / 2 : vf_choose(2) * (n))
	size_t n = vf_choose(N + 1); uint8_t *b = malloc(n + 1); for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(i * 73 + 9); if (n) { size_t at = vf_choose(3); at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1; b[at] = vf_u8(); if (at + 1 < n) b[at + 1] = vf_u8(); } uint8_t *keep = vf_dup(b, n); size_t cut = CUT(n);
#else
#define CUT(n) vf_choose((n) + 1)
	size_t n = vf_choose(N + 1); uint8_t *b = vf_buf(n), *keep = vf_dup(b, n); size_t cut = CUT(n);
#endif
	char *t = malloc(2 * n + 4); base64_encodestate e; base64_init_encodestate(&e); size_t k = (size_t)base64_encode_block((char *)b, (int)cut, t, &e);
	k += (size_t)base64_encode_block((char *)b + cut, (int)(n - cut), t + k, &e); k += (size_t)base64_encode_blockend(t + k, &e);
	vf_assert(k == (n + 2) / 3 * 4, "length of the text"); vf_observe_bytes(t, k);
	for (size_t i = 0; i < n; i += 3) {
		uint32_t v = (uint32_t)b[i] << 16 | (i + 1 < n ? (uint32_t)b[i + 1] << 8 : 0) | (i + 2 < n ? b[i + 2] : 0); char *q = t + i / 3 * 4;
		vf_assert(q[0] == abc[v >> 18] && q[1] == abc[v >> 12 & 63] && (i + 1 < n ? q[2] == abc[v >> 6 & 63] : q[2] == '=') && (i + 2 < n ? q[3] == abc[v & 63] : q[3] == '='), "RFC 4648 characters");
	}
	vf_assert(memcmp(b, keep, n) == 0, "input unchanged");
	char *x = malloc(k); memcpy(x, t, k); size_t c2 = CUT(k); char *o = malloc(k + 1); base64_decodestate d; base64_init_decodestate(&d);
	size_t m = (size_t)base64_decode_block(x, (int)c2, o, &d); m += (size_t)base64_decode_block(x + c2, (int)(k - c2), o + m, &d);
	vf_assert(m == n && memcmp(o, b, n) == 0, "decoding gives the octets back");
	if (n == N) vf_witness("full");
#else	// decoding arbitrary characters: skips what is not in the alphabet
	size_t n = vf_choose(N + 1); char *t = (char *)vf_buf(n); char *o = malloc(n + 1); base64_decodestate d; base64_init_decodestate(&d);
	size_t m = (size_t)base64_decode_block(t, (int)n, o, &d); vf_observe(m); vf_observe_bytes(o, m);
	uint32_t acc = 0; unsigned bits = 0; size_t w = 0;
	for (size_t i = 0; i < n; i++) {
		uint8_t c = (uint8_t)t[i]; int v = c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1;
		if (v < 0) continue;
		acc = acc << 6 | (uint32_t)v; bits += 6; if (bits >= 8) { bits -= 8; vf_assert(w < m && (uint8_t)o[w] == (uint8_t)(acc >> bits), "decoded octet"); w++; }
	}
	vf_assert(w == m, "number of octets"); if (w) vf_witness("decoded");
#endif
}
