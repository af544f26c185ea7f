// The presentation format of every known type, written from the RFCs: letters of refmsg.h, refined by how a field is shown.
// N name  1 2 4 decimal  a IPv4  G IPv6  6 8 EUI  S quoted string  R quoted strings  P A6 prefix  T type list  V SvcParams
// B hexadecimal  b base64  q quoted rest  l salt  x hash  t type
#ifndef RDTEXT_H
#define RDTEXT_H
#include "refmsg.h"
#include "flds.h"
struct td { uint16_t type; uint8_t in_only; const char *f; };
static const struct td tds[] = {
	{1,1,"a"},{2,0,"N"},{3,0,"N"},{4,0,"N"},{5,0,"N"},{6,0,"NN44444"},{7,0,"N"},{8,0,"N"},{9,0,"N"},{10,0,"B"},{11,1,"41B"},{12,0,"N"},
	{13,0,"SS"},{14,0,"NN"},{15,0,"2N"},{16,0,"R"},{17,0,"NN"},{18,0,"2N"},{19,0,"S"},{20,0,"SS"},{21,0,"2N"},{24,0,"2114442NB"},
	{26,1,"2NN"},{28,1,"G"},{30,0,"NB"},{33,1,"222N"},{35,1,"22SSSN"},{36,1,"2N"},{38,1,"PN"},{39,0,"N"},{43,0,"211B"},
	{46,0,"t114442Nb"},{47,0,"NT"},{48,0,"211b"},{50,0,"112lxT"},{51,0,"112l"},{52,0,"111B"},{59,0,"211B"},{60,0,"211b"},{61,0,"b"},
	{62,0,"42T"},{64,1,"2NV"},{65,1,"2NV"},{99,0,"R"},{108,0,"6"},{109,0,"8"},{256,0,"22q"},{257,1,"1Sq"} };
#define NTD (sizeof tds / sizeof *tds)
static char *o; static size_t on;
static inline void oc(char c) { o[on++] = c; }
static inline void os(const char *s) { while (*s) oc(*s++); }
static inline void odec(uint64_t v) { char t[20]; size_t n = 0; do { t[n++] = (char)('0' + v % 10); v /= 10; } while (v); while (n) oc(t[--n]); }
static inline void ohex(uint8_t v, char ten) { uint8_t h = v >> 4, l = v & 15; oc((char)(h + '0' + (h > 9) * (ten - '0' - 10))); oc((char)(l + '0' + (l > 9) * (ten - '0' - 10))); }
static inline void oesc(uint8_t c) { if (c == '"') os("\\\""); else if (c == '\\') os("\\\\"); else if (c >= ' ' && c <= '~') oc((char)c); else { oc('\\'); oc((char)('0' + c / 100)); oc((char)('0' + c / 10 % 10)); oc((char)('0' + c % 10)); } }
static inline void ostr(const uint8_t *p, size_t n) { oc('"'); while (n--) oesc(*p++); oc('"'); }
static inline char b64c(unsigned v) { return (char)(v < 26 ? 'A' + v : v < 52 ? 'a' + v - 26 : v < 62 ? '0' + v - 52 : v == 62 ? '+' : '/'); }
static inline void ob64(const uint8_t *p, size_t n) { for (size_t i = 0; i < n; i += 3) { unsigned v = (unsigned)p[i] << 16 | (i + 1 < n ? (unsigned)p[i + 1] << 8 : 0) | (i + 2 < n ? p[i + 2] : 0); oc(b64c(v >> 18)); oc(b64c(v >> 12 & 63)); oc(i + 1 < n ? b64c(v >> 6 & 63) : '='); oc(i + 2 < n ? b64c(v & 63) : '='); } }
static inline void ob32(const uint8_t *p, size_t n) { unsigned acc = 0, bits = 0; for (size_t i = 0; i < n || bits; ) { if (bits < 5) { if (i < n) { acc = acc << 8 | p[i++]; bits += 8; continue; } acc <<= 5 - bits; bits = 5; } bits -= 5; unsigned v = acc >> bits & 31; oc((char)(v < 10 ? '0' + v : 'A' + v - 10)); acc &= (1u << bits) - 1; } }
static inline void otype(unsigned v) { const char *s = wdns_rrtype_to_str((uint16_t)v); if (s) os(s); else { os("TYPE"); odec(v); } }	// the names: property P26
static inline void oname(const uint8_t *p, size_t n) { char *t = malloc(WDNS_PRESLEN_NAME); size_t k = wdns_domain_to_str(p, n, t); (void)k; os(t); free(t); }	// property P11, P12
static inline void oip4(const uint8_t *p) { for (int i = 0; i < 4; i++) { if (i) oc('.'); odec(p[i]); } }
#include <arpa/inet.h>
static inline void oip6(const uint8_t *p) { char t[64]; vf_assert(inet_ntop(AF_INET6, p, t, sizeof t) != 0, "IPv6 text"); os(t); }
static const char *const spk[] = { "mandatory", "alpn", "no-default-alpn", "port", "ipv4hint", "ech", "ipv6hint" };
static inline void okey(unsigned k) { if (k < 7) os(spk[k]); else { os("key"); odec(k); } }
// one field at p, r octets left; returns its length.  Each field is followed by a space.
static inline size_t ofield(char f, const uint8_t *p, size_t r) {
	size_t n = 0;
	switch (f) {
	case 'N': n = ref_name(p, r); oname(p, n); oc(' '); break;
	case '1': n = 1; odec(p[0]); oc(' '); break;
	case '2': n = 2; odec((unsigned)p[0] << 8 | p[1]); oc(' '); break;
	case '4': n = 4; odec((uint32_t)p[0] << 24 | (uint32_t)p[1] << 16 | (uint32_t)p[2] << 8 | p[3]); oc(' '); break;
	case 't': n = 2; otype((unsigned)p[0] << 8 | p[1]); oc(' '); break;
	case 'a': n = 4; oip4(p); oc(' '); break;
	case 'G': n = 16; oip6(p); oc(' '); break;
	case '6': case '8': n = (size_t)(f - '0'); for (size_t i = 0; i < n; i++) { if (i) oc('-'); ohex(p[i], 'a'); } break;
	case 'S': n = (size_t)p[0] + 1; ostr(p + 1, n - 1); oc(' '); break;
	case 'R': while (n < r) { size_t k = p[n]; ostr(p + n + 1, k); oc(' '); n += k + 1; } break;
	case 'l': n = (size_t)p[0] + 1; if (n == 1) oc('-'); for (size_t i = 1; i < n; i++) ohex(p[i], 'a'); oc(' '); break;
	case 'x': n = (size_t)p[0] + 1; if (n == 1) oc('0'); else ob32(p + 1, n - 1); oc(' '); break;
	case 'B': n = r; for (size_t i = 0; i < n; i++) ohex(p[i], 'A'); break;
	case 'b': n = r; ob64(p, n); break;
	case 'q': n = r; ostr(p, n); oc(' '); break;
	case 'P': { unsigned b = p[0]; size_t k = (135 - b) / 8; odec(b); oc(' '); if (k) { uint8_t t[16]; memset(t, 0, 16); memcpy(t + 16 - k, p + 1, k); oip6(t); oc(' '); } n = k + 1; break; }
	case 'T': while (n + 2 <= r) { unsigned w = p[n], k = p[n + 1]; for (unsigned i = 0; i < k * 8; i++) if (p[n + 2 + i / 8] >> (7 - i % 8) & 1) { otype(w << 8 | i); oc(' '); } n += 2 + k; } break;
	case 'V': while (n < r) {
			unsigned k = (unsigned)p[n] << 8 | p[n + 1], l = (unsigned)p[n + 2] << 8 | p[n + 3]; const uint8_t *v = p + n + 4; okey(k); if (k != 2) oc('=');
			switch (k) {
			case 0: for (unsigned i = 0; i < l; i += 2) { if (i) oc(','); okey((unsigned)v[i] << 8 | v[i + 1]); } break;
			case 1: oc('"'); for (unsigned i = 0; i < l; ) { if (i) oc(','); unsigned e = i + 1 + v[i]; for (i++; i < e; i++) { if (v[i] == '\\') os("\\\\\\\\"); else if (v[i] == ',') os("\\\\,"); else oesc(v[i]); } } oc('"'); break;
			case 2: break;
			case 3: odec((unsigned)v[0] << 8 | v[1]); break;
			case 4: for (unsigned i = 0; i < l; i += 4) { if (i) oc(','); oip4(v + i); } break;
			case 5: ob64(v, l); break;
			case 6: for (unsigned i = 0; i < l; i += 16) { if (i) oc(','); oip6(v + i); } break;
			default: ostr(v, l);
			}
			oc(' '); n += 4 + l;
		} break;
	}
	return n;
}
static inline void ordata(const char *f, const uint8_t *p, size_t r) { for (; *f && r; f++) { size_t n = ofield(*f, p, r); p += n; r -= n; } if (on && o[on - 1] == ' ') on--; }
#endif
