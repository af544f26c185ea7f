// Any octets rendered as any type: safe, terminated, initialised, nothing leaked; malformed fields are marked.
#include "rdtext.h"
#include "rdfix.h"
// 1: every field is complete and well formed, 0: one is not, 2: not judged (one octet left over in a type list)
static int judge(const char *f, const uint8_t *p, size_t r) {
	for (; *f && r; f++) {
		size_t n = 0;
		switch (*f) {
		case 'N': n = ref_name(p, r); if (!n) return 0; break;
		case '1': n = 1; break; case '2': case 't': n = 2; break; case '4': case 'a': n = 4; break; case 'G': n = 16; break; case '6': n = 6; break; case '8': n = 8; break;
		case 'S': case 'l': case 'x': n = (size_t)p[0] + 1; break;
		case 'R': while (n < r) n += (size_t)p[n] + 1; break;
		case 'B': case 'b': case 'q': n = r; break;
		case 'P': if (p[0] > 128) return 0; n = 1 + (135 - (size_t)p[0]) / 8; break;
		case 'T': if (r < 2) return 0; while (r - n >= 2) { n += 2 + (size_t)p[n + 1]; if (n > r) return 0; } if (r - n) return 2; break;
		case 'V': while (n < r) { if (r - n < 4) return 0; unsigned k = (unsigned)p[n] << 8 | p[n + 1]; size_t l = (size_t)p[n + 2] << 8 | p[n + 3]; n += 4; if (k == 65535 || l > r - n) return 0; if ((k != 1 || l) && !ref_svcparam(k, l, p + n)) return 0; n += l; } break;
		case 'O': while (n < r) { if (r - n < 4) return 0; unsigned k = (unsigned)p[n] << 8 | p[n + 1]; size_t l = (size_t)p[n + 2] << 8 | p[n + 3]; n += 4; if (l > r - n) return 0;
				if (k == 8) { if (l < 4) return 0; unsigned a = (unsigned)p[n] << 8 | p[n + 1]; if (!(a == 1 && l <= 8) && !(a == 2 && l <= 20)) return 0; } if (k == 15 && l < 2) return 0; n += l; } break;
		}
		if (n > r) return 0;
		p += n; r -= n;
	}
	return 1;
}
void vf_main(void) {
	size_t live = vf_live(), len; uint16_t type, cls = vf_u16(); const char *f = "";
#if MODE == 0		// any type: N octets, all arbitrary
	type = vf_u16(); len = vf_choose(N + 1); uint8_t *rd = vf_buf(len);
	for (size_t i = 0; i < NTD; i++) if (tds[i].type == type && (!tds[i].in_only || cls == 1)) f = tds[i].f; if (type == 41) f = "O";
#else			// a known type: fixed fields, then arbitrary octets
#ifdef TYPES
	static const uint16_t sel[] = { TYPES }; size_t t = 0; type = sel[vf_choose(sizeof sel / sizeof *sel)]; while (t < NTD && tds[t].type != type) t++;
#else
	size_t t = vf_choose(NTD + 1); type = t < NTD ? tds[t].type : 41;
#endif
	f = t < NTD ? tds[t].f : "O"; if (t < NTD && tds[t].in_only) vf_assume(cls == 1);
	size_t k = vf_choose(strlen(f)); q = malloc(100 + N); qn = 0; for (size_t i = 0; i < k; i++) fixed(f[i]);
	for (size_t n = vf_choose(N + 1); n; n--) put(vf_u8());
	len = qn; uint8_t *rd = len ? vf_dup(q, len) : vf_buf(0); free(q);
#endif
	char *s = wdns_rdata_to_str(rd, (uint16_t)len, type, cls);
	vf_assert(s != 0, "a text"); size_t n = strlen(s); vf_assert(vf_is_init(s, n + 1), "the text is initialised");
	vf_observe_bytes(s, n);
	int bad = n >= 3 && s[n - 1] == '#' && s[n - 2] == '#' && s[n - 3] == '#', j = judge(f, rd, len);
	if (*f && j != 2) vf_assert(bad == !j, "exactly malformed data is marked");
	if (bad) vf_witness("malformed"); else vf_witness("rendered");
	free(s); if (len) free(rd);
	if (len) vf_assert(vf_live() == live, "nothing is leaked");
}
