// Reference notions of a domain name in wire form (RFC 1035 3.1), shared by the harnesses.
#ifndef NAMES_H
#define NAMES_H
#include "vf.h"
// length of the uncompressed name that starts at p[0], using at most len octets; 0 when there is none
static inline size_t ref_name(const uint8_t *p, size_t len) {
	size_t n = 0;
	for (;;) {
		if (n >= len || n >= 255) return 0;
		uint8_t c = p[n++];
		if (c == 0) return n;
		if (c > 63) return 0;
		n += c;
	}
}
static inline size_t ref_labels(const uint8_t *p) { size_t n = 0; while (*p) { n++; p += 1 + *p; } return n; }
// octet offset of label i
static inline size_t ref_label_off(const uint8_t *p, size_t i) { size_t o = 0; while (i--) o += 1 + p[o]; return o; }
// an arbitrary well-formed name of at most max octets in a buffer of exactly that size; one path per label structure
static inline uint8_t *vf_name(size_t max, size_t *len) {
	uint8_t lens[256]; size_t k = 0, n = 1;
	while (n < max) { size_t room = max - n - 1; if (room > 63) room = 63; uint8_t c = (uint8_t)vf_choose(room + 1); if (!c) break; lens[k++] = c; n += 1 + c; if (max - n < 2) break; }
	uint8_t *b = malloc(n), *q = b;
	for (size_t i = 0; i < k; i++) { *q++ = lens[i]; for (size_t j = 0; j < lens[i]; j++) *q++ = vf_u8(); }
	*q = 0; *len = n; return b;
}
// a name of up to 255 octets: one label of 1..63 octets and then up to three more, or many short labels; two octets of its labels are arbitrary (the first and one of the last), the others fixed
static inline uint8_t *vf_longname(size_t *len) {
	uint8_t *b = malloc(256), *q = b; size_t n = vf_choose(4), last = 0;
	if (n < 3) {
		static const uint8_t more[] = { 1, 32, 62, 63 }; size_t c = 1 + vf_choose(63); *q++ = (uint8_t)c; memset(q, 'F', c); q += c; last = 0; if (n) n = vf_choose(2) ? 1 : 3; size_t d = n ? more[vf_choose(4)] : 0;
		for (size_t i = 0; i < n && q - b + 1 + d < 255; i++) { last = q - b; *q++ = (uint8_t)d; memset(q, 'a' + (int)i, d); q += d; }
	} else { n = 1 + vf_choose(127); for (size_t i = 0; i < n; i++) { last = q - b; *q++ = 1; *q++ = (uint8_t)('A' + i % 50); } if (n < 127 && vf_choose(2)) { b[0] = 2; memmove(b + 3, b + 2, (size_t)(q - b - 2)); b[2] = 'w'; q++; if (last) last++; } }
	*q++ = 0; *len = (size_t)(q - b); b[1] = vf_u8(); b[last + b[last]] = vf_u8(); uint8_t *r = vf_dup(b, *len); free(b); return r;
}
static inline uint8_t ref_lower(uint8_t c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
#endif
