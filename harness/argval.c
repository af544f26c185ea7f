// P49: values of options from text and to text (libmy/argv.c)
#include "vf.h"
#include <ctype.h>
static char *vp_getenv(const char *n) { (void)n; return NULL; }
#define getenv(n) vp_getenv(n)
#include "libmy/argv.c"
#undef getenv
static struct { union { char c; char *s; short h; unsigned short uh; int i; unsigned u; long l; unsigned long ul; uint8_t raw[16]; }; } v;
static const unsigned types[] = { ARGV_BOOL, ARGV_BOOL_NEG, ARGV_BOOL_ARG, ARGV_CHAR, ARGV_CHAR_P, ARGV_SHORT, ARGV_U_SHORT, ARGV_INT, ARGV_U_INT, ARGV_LONG, ARGV_U_LONG, ARGV_BIN, ARGV_OCT, ARGV_HEX, ARGV_INCR, ARGV_SIZE, ARGV_U_SIZE, ARGV_BOOL_INT, ARGV_BOOL_INT_NEG, ARGV_BOOL_INT_ARG };
static size_t width(unsigned t) { switch (t) { case ARGV_BOOL: case ARGV_BOOL_NEG: case ARGV_BOOL_ARG: case ARGV_CHAR: return 1; case ARGV_SHORT: case ARGV_U_SHORT: return 2; case ARGV_LONG: case ARGV_U_LONG: case ARGV_SIZE: case ARGV_U_SIZE: case ARGV_CHAR_P: return 8; default: return 4; } }
static bool in(char c, int base) { int d = (c >= '0') & (c <= '9') ? c - '0' : (c >= 'a') & (c <= 'f') ? c - 'a' + 10 : (c >= 'A') & (c <= 'F') ? c - 'A' + 10 : 99; return d < base; }
static long digits(const char *t, int base, const char **end) { long r = 0; while (in(*t, base)) { char c = *t++; r = r * base + (c <= '9' ? c - '0' : (c | 32) - 'a' + 10); } *end = t; return r; }
static const char *skip(const char *t) { while (*t == ' ' || ((*t >= 9) & (*t <= 13))) t++; return t; }
static long number(const char *t) { const char *e; t = skip(t); bool neg = *t == '-'; if (*t == '-' || *t == '+') t++; long r = digits(t, 10, &e); return neg ? -r : r; }
// ---- the text of a value
static char want[128]; static size_t wn;
static void ch(char c) { want[wn++] = c; }
static void str(const char *s) { while (*s) ch(*s++); }
static void num(unsigned long n, unsigned base) { char b[72]; int k = 0; do { b[k++] = "0123456789abcdef"[n % base]; n /= base; } while (n); while (k) ch(b[--k]); }
static void snum(long n) { if (n < 0) { ch('-'); num(-(unsigned long)n, 10); } else num((unsigned long)n, 10); }
void vf_main(void) {
	argv_interactive = 0; argv_error_stream = NULL; size_t l0 = vf_live(); const char *e; static char vp[] = "p";
#if MODE == 0
	unsigned t = types[vf_choose(sizeof types / sizeof types[0])]; size_t n = vf_choose(N + 1); char a[N + 4] = "-t=", *s = a + 3, c[N + 1];
	for (size_t i = 0; i < n; i++) { s[i] = (char)vf_u8(); vf_assume(s[i] > 0); } s[n] = 0; memcpy(c, s, n + 1);
	argv_t tab[] = { { 't', NULL, t, &v, NULL, NULL }, { ARGV_LAST } }; char *av[] = { vp, a, NULL };
	memset(&v, 0x5a, sizeof v); int r = argv_process_no_env(tab, 2, av); vf_assert(r == 0, "any text is taken"); size_t w = width(t);
	for (size_t i = w; i < sizeof v; i++) vf_assert(v.raw[i] == 0x5a, "nothing behind the variable is written");
	bool yes = (c[0] == 't') | (c[0] == 'T') | (c[0] == 'y') | (c[0] == 'Y') | (c[0] == '1'); long x;
	switch (t) {
	case ARGV_BOOL: case ARGV_BOOL_NEG: case ARGV_BOOL_ARG: vf_assert(v.c == yes, "yes or no"); break;
	case ARGV_BOOL_INT: case ARGV_BOOL_INT_NEG: case ARGV_BOOL_INT_ARG: vf_assert(v.i == yes, "yes or no"); break;
	case ARGV_CHAR: vf_assert(v.c == c[0], "the first character"); break;
	case ARGV_CHAR_P: vf_assert(strcmp(v.s, c) == 0, "the text"); break;
	case ARGV_SHORT: case ARGV_U_SHORT: vf_assert(v.h == (short)number(c), "the number"); break;
	case ARGV_INT: case ARGV_U_INT: case ARGV_INCR: vf_assert(v.i == (int)number(c), "the number"); break;
	case ARGV_LONG: case ARGV_U_LONG: vf_assert(v.l == number(c), "the number"); break;
	case ARGV_BIN: vf_assert(v.i == (int)digits(skip(c), 2, &e), "the binary number"); break;
	case ARGV_OCT: vf_assert(v.i == (int)digits(skip(c), 8, &e), "the octal number"); break;
	case ARGV_HEX: e = skip(c); if (e[0] == '0' && (e[1] == 'x' || e[1] == 'X')) e += 2; vf_assert(v.i == (int)digits(e, 16, &e), "the hexadecimal number"); break;
	default: x = number(c); for (e = c; in(*e, 10) || *e == ' ' || *e == '-' || *e == '+'; e++) ; if ((*e | 32) == 'k') x *= 1024; else if ((*e | 32) == 'm') x *= 1024 * 1024; else if ((*e | 32) == 'g') x *= 1024L * 1024 * 1024; vf_assert(v.l == x, "the number times its unit"); if (x > 1024) vf_witness("unit");
	}
	for (size_t i = 0; t != ARGV_CHAR_P && i < w; i++) vf_observe(v.raw[i]);
	argv_cleanup(tab); vf_assert(vf_live() == l0, "nothing is leaked");
#elif MODE == 1
	unsigned t = types[vf_choose(sizeof types / sizeof types[0])]; static const long vals[] = { 0, 1, -1, 7, 10, 255, 1023, 1024, -2048, 5 << 20, -(3 << 20), 1 << 30, 3L << 30, -(7L << 30), 32767, -32768, 65535, 2147483647, -2147483648L, 4294967295L, 9223372036854775807L, -9223372036854775807L - 1, 1234567890123456789L };
	char *s = NULL; bool whole = true; size_t cap = 1 + vf_choose(CAP);
	if (t == ARGV_CHAR_P && vf_choose(2)) { size_t n = vf_choose(N + 1); s = malloc(n + 1); for (size_t i = 0; i < n; i++) { s[i] = (char)vf_u8(); vf_assume(s[i] != 0); } s[n] = 0; v.s = s; }
	else if (t == ARGV_CHAR_P) v.s = NULL; else if (width(t) == 1) v.c = (char)vf_u8(); else v.l = vals[vf_choose(sizeof vals / sizeof vals[0])];
	long l = v.l; int i = v.i;
	switch (t) {
	case ARGV_BOOL: case ARGV_BOOL_NEG: case ARGV_BOOL_ARG: str(v.c ? "true (! 0)" : "false (0)"); break;
	case ARGV_BOOL_INT: case ARGV_BOOL_INT_NEG: case ARGV_BOOL_INT_ARG: str(i ? "true (! 0)" : "false (0)"); break;
	case ARGV_CHAR: case ARGV_CHAR_P: {
		const unsigned char *q = t == ARGV_CHAR ? (unsigned char *)&v.c : (unsigned char *)s; size_t k = t == ARGV_CHAR ? 1 : s ? strlen(s) : 0; if (t == ARGV_CHAR_P && !s) { str("(null)"); break; }
		for (size_t j = 0; j < k; j++) {
			char b[5]; unsigned char o = q[j]; static const char sp[] = "\033^\"'\\\n\r\t\b\f\a", na[] = "e^\"'\\nrtbfa"; const char *h = o ? strchr(sp, o) : NULL; size_t m;
			if (h) { b[0] = '\\'; b[1] = na[h - sp]; m = 2; } else if ((o >= 32) & (o < 127)) { b[0] = (char)o; m = 1; } else { b[0] = '\\'; b[1] = '0' + (o >> 6); b[2] = '0' + (o >> 3 & 7); b[3] = '0' + (o & 7); m = 4; }
			if (wn + m >= cap) { whole = false; break; } memcpy(want + wn, b, m); wn += m; if (m > 1) vf_witness("escape");
		} break; }
	case ARGV_SHORT: snum(v.h); break; case ARGV_U_SHORT: snum(v.uh); break; case ARGV_INT: case ARGV_INCR: snum(i); break; case ARGV_U_INT: num(v.u, 10); break; case ARGV_LONG: snum(l); break; case ARGV_U_LONG: num(v.ul, 10); break;
	case ARGV_BIN: if (i) { str("0b"); num((unsigned)i, 2); str(" ("); snum(i); ch(')'); } else ch('0'); break;
	case ARGV_OCT: if (i) { ch('0'); num((unsigned)i, 8); str(" ("); snum(i); ch(')'); } else ch('0'); break;
	case ARGV_HEX: if (i) { str("0x"); num((unsigned)i, 16); str(" ("); snum(i); ch(')'); } else ch('0'); break;
	default: { bool sg = t == ARGV_SIZE; int u = !l ? 0 : !(l & 0x3fffffff) ? 3 : !(l & 0xfffff) ? 2 : !(l & 1023) ? 1 : 0; if (!u) { if (sg) snum(l); else num(v.ul, 10); break; } if (sg) snum(l / (1L << 10 * u)); else num(v.ul >> 10 * u, 10); ch(" kmg"[u]); str(" ("); if (sg) snum(l); else num(v.ul, 10); ch(')'); vf_witness("unit"); }
	}
	if (wn >= cap) { wn = cap - 1; whole = false; } (void)whole;
	argv_t en = { 't', NULL, t, &v, NULL, NULL }; char *b = malloc(cap); memset(b, 0x5a, cap); size_t l1 = vf_live(); int r = argv_value_string(&en, b, (int)cap);
	vf_assert(r >= 0 && (size_t)r == wn, "the length"); vf_assert(memcmp(b, want, wn) == 0, "the text of the value"); vf_assert(b[wn] == 0, "terminated"); vf_observe_bytes(b, wn); vf_assert(vf_live() == l1, "nothing is leaked"); if (!whole) vf_witness("cut");
	free(b); free(s); (void)e; (void)vp;
#else
	int n = (int)vf_choose(4); char *av[5]; av[0] = vp; size_t cap = vf_choose(CAP + 1); char join[64]; size_t jn = 0;
	for (int i = 0; i < n; i++) { size_t k = vf_choose(N + 1); av[i + 1] = malloc(k + 1); for (size_t j = 0; j < k; j++) { av[i + 1][j] = (char)vf_u8(); vf_assume(av[i + 1][j] != 0); } av[i + 1][k] = 0; if (i) join[jn++] = ' '; memcpy(join + jn, av[i + 1], k); jn += k; } av[n + 1] = NULL;
	argv_argv = av; argv_argc = n + 1; char *b = (char *)vf_buf(cap); int r = argv_copy_args(b, (int)cap); vf_assert(r == 0, "the result");
	if (cap) { size_t k = jn < cap ? jn : cap - 1; vf_assert(memcmp(b, join, k) == 0 && b[k] == 0, "the arguments, joined by spaces, as far as they fit"); vf_observe_bytes(b, k); if (k < jn) vf_witness("cut"); if (k == jn) vf_witness("whole"); }
	(void)e; (void)v; (void)types;
#endif
}
