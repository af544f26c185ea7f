// The text of EDNS options as documented (dig's format; RFC 7871, RFC 8914): one option per line.
#ifndef EDTEXT_H
#define EDTEXT_H
#include "rdtext.h"
static const char *const ede[] = { "Other Error", "Unsupported DNSKEY Algorithm", "Unsupported DS Digest Type", "Stale Answer", "Forged Answer", "DNSSEC Indeterminate", "DNSSEC Bogus", "Signature Expired", "Signature Not Yet Valid", "DNSKEY Missing", "RRSIGs Missing", "No Zone Key Bit Set", "NSEC Missing", "Cached Error", "Not Ready", "Blocked", "Censored", "Filtered", "Prohibited", "Stale NXDomain Answer", "Not Authoritative", "Not Supported", "No Reachable Authority", "Network Error", "Invalid Data" };
static inline void oprint(const uint8_t *p, size_t n) { while (n--) { uint8_t c = *p++; if (c >= ' ' && c <= '~') oc((char)c); else oc('.'); } }
// appends the text; 0 when the data is malformed: then only what precedes the malformed option is appended, and the name of that option
static inline int oedns(const uint8_t *p, size_t r) {
	while (r) {
		if (r < 2) return 0;
		unsigned code = (unsigned)p[0] << 8 | p[1];
		if (code == 8) os("CLIENT-SUBNET:"); else if (code == 15) os("EDE:"); else { os("OPT="); odec(code); oc(':'); }
		if (r < 4) return 0;
		unsigned l = (unsigned)p[2] << 8 | p[3]; p += 4; r -= 4;
		if (l > r) return 0;
		if (code == 8) {
			if (l < 4) return 0;
			unsigned fam = (unsigned)p[0] << 8 | p[1], al = l - 4;
			if (fam != 1 && fam != 2) return 0;
			if (al > (fam == 1 ? 4 : 16)) return 0;
			uint8_t a[16]; memset(a, 0, 16); memcpy(a, p + 4, al); oc(' '); if (fam == 1) oip4(a); else oip6(a); oc('/'); odec(p[2]); oc('/'); odec(p[3]);
		} else if (code == 15) {
			if (l < 2) return 0;
			unsigned c = (unsigned)p[0] << 8 | p[1]; oc(' '); odec(c); if (c < 25) { os(" ("); os(ede[c]); oc(')'); } os(": ("); oprint(p + 2, l - 2); oc(')');
		} else {
			oc(' '); for (unsigned i = 0; i < l; i++) { ohex(p[i], 'a'); oc(' '); } os("(\""); oprint(p, l); os("\")");
		}
		p += l; r -= l; if (r) oc('\n');
	}
	return 1;
}
#endif
