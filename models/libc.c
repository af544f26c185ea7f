// C models of the libc functions the library calls; executed symbolically in place of libc.
// Each follows ISO C / POSIX (glibc where those leave a choice).  models/selftest.c compares them with
// the real libc.
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <stdbool.h>
#include <sys/types.h>
void *malloc(size_t); void free(void *); void *memcpy(void *, const void *, size_t); void *realloc(void *, size_t);
#ifdef VF_SELFTEST
#define M(x) m_##x
#else
#define M(x) x
#endif

int M(isdigit)(int c) { return (c >= '0') & (c <= '9'); }
int M(isupper)(int c) { return (c >= 'A') & (c <= 'Z'); }
int M(islower)(int c) { return (c >= 'a') & (c <= 'z'); }
int M(isalpha)(int c) { return ((c >= 'A') & (c <= 'Z')) | ((c >= 'a') & (c <= 'z')); }
int M(isalnum)(int c) { return ((c >= '0') & (c <= '9')) | ((c >= 'A') & (c <= 'Z')) | ((c >= 'a') & (c <= 'z')); }
int M(isxdigit)(int c) { return ((c >= '0') & (c <= '9')) | ((c >= 'A') & (c <= 'F')) | ((c >= 'a') & (c <= 'f')); }
int M(isspace)(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int M(isblank)(int c) { return (c == ' ') | (c == 9); }
int M(isprint)(int c) { return (c >= 32) & (c <= 126); }
int M(isgraph)(int c) { return (c >= 33) & (c <= 126); }
int M(ispunct)(int c) { return M(isgraph)(c) & !M(isalnum)(c); }
int M(iscntrl)(int c) { return ((c >= 0) & (c < 32)) | (c == 127); }
int M(isascii)(int c) { return (c >= 0) & (c <= 127); }
int M(tolower)(int c) { return ((c >= 'A') & (c <= 'Z')) ? c + 32 : c; }
int M(toupper)(int c) { return ((c >= 'a') & (c <= 'z')) ? c - 32 : c; }

size_t M(strlen)(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t M(strnlen)(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int M(strcmp)(const char *a, const char *b) { for (;; a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int M(strncmp)(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
int M(strcasecmp)(const char *a, const char *b) { for (;; a++, b++) { int x = M(tolower)((unsigned char)*a), y = M(tolower)((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } }
int M(strncasecmp)(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { int x = M(tolower)((unsigned char)*a), y = M(tolower)((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
char *M(strchr)(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *M(strchrnul)(const char *s, int c) { for (;; s++) { if (*s == (char)c || !*s) return (char *)s; } }
char *M(strrchr)(const char *s, int c) { char *r = 0; for (;; s++) { if (*s == (char)c) r = (char *)s; if (!*s) return r; } }
void *M(memchr)(const void *s, int c, size_t n) { const unsigned char *p = s; for (; n; n--, p++) if (*p == (unsigned char)c) return (void *)p; return 0; }
static int inset(char c, const char *set) { for (; *set; set++) if (*set == c) return 1; return 0; }
// membership without a branch per member
static int inset1(char c, const char *set) { int r = 0; for (; *set; set++) r |= (*set == c); return r; }
char *M(strpbrk)(const char *s, const char *set) { for (; *s; s++) if (inset1(*s, set)) return (char *)s; return 0; }
size_t M(strspn)(const char *s, const char *set) { size_t n = 0; while (s[n] && inset1(s[n], set)) n++; return n; }
size_t M(strcspn)(const char *s, const char *set) { size_t n = 0; while (s[n] && !inset1(s[n], set)) n++; return n; }
char *M(strtok_r)(char *s, const char *d, char **sp) {
	if (!s) s = *sp;
	if (!s) return 0;
	s += M(strspn)(s, d);
	if (!*s) { *sp = s; return 0; }
	char *e = s + M(strcspn)(s, d);
	if (!*e) { *sp = e; return s; }
	*e = 0; *sp = e + 1; return s;
}
char *M(strtok)(char *s, const char *d) { static char *p; return M(strtok_r)(s, d, &p); }
char *M(strsep)(char **sp, const char *d) { char *s = *sp; if (!s) return 0; char *e = s + M(strcspn)(s, d); if (*e) { *e = 0; *sp = e + 1; } else *sp = 0; return s; }
char *M(strstr)(const char *h, const char *n) { size_t l = M(strlen)(n); for (;; h++) { if (!M(strncmp)(h, n, l)) return (char *)h; if (!*h) return 0; } }
char *M(strcpy)(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *M(stpcpy)(char *d, const char *s) { while ((*d = *s)) { d++; s++; } return d; }
char *M(strcat)(char *d, const char *s) { M(strcpy)(d + M(strlen)(d), s); return d; }
char *M(strncpy)(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *M(strncat)(char *d, const char *s, size_t n) { char *e = d + M(strlen)(d); size_t i = 0; for (; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; return d; }
char *M(strdup)(const char *s) { size_t n = M(strlen)(s) + 1; char *p = malloc(n); if (p) memcpy(p, s, n); return p; }
char *M(strndup)(const char *s, size_t m) { size_t n = M(strnlen)(s, m); char *p = malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
#ifndef VF_SELFTEST
void *mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char *)d + n; }
void bcopy(const void *s, void *d, size_t n) { __builtin_memmove(d, s, n); }
static int vf_errno;
int *__errno_location(void) { return &vf_errno; }
#endif

static int dig(int c) { return ((c >= '0') & (c <= '9')) ? c - '0' : ((c >= 'a') & (c <= 'z')) ? c - 'a' + 10 : ((c >= 'A') & (c <= 'Z')) ? c - 'A' + 10 : 99; }
static unsigned long long stoull(const char *s, char **end, int base, int sgn, int maxw) {
	const char *p = s; int neg = 0, any = 0, ovf = 0; unsigned long long v = 0;
	while (M(isspace)((unsigned char)*p)) p++;
	const char *lim = maxw > 0 ? p + maxw : 0;
	if ((!lim || p < lim) && (*p == '-' || *p == '+')) { neg = *p == '-'; p++; }
	if ((base == 0 || base == 16) && (!lim || p < lim) && *p == '0') {
		if ((!lim || p + 1 < lim) && (p[1] == 'x' || p[1] == 'X') && (!lim || p + 2 < lim) && dig((unsigned char)p[2]) < 16) { p += 2; base = 16; }
		else if (base == 0) base = 8;
	}
	if (base == 0) base = 10;
	for (; !lim || p < lim; p++) {
		unsigned long long d;
		if (base <= 10) { if (*p < '0' || *p >= '0' + base) break; d = (unsigned long long)(*p - '0'); }	// no case for letters, no division: easier to decide
		else { int x = dig((unsigned char)*p); if (x >= base) break; d = (unsigned)x; }
		any = 1;
		if (v > ~0ULL / (unsigned)base || v * (unsigned)base > ~0ULL - d) ovf = 1; else v = v * (unsigned)base + d;
	}
	if (end) *end = (char *)(any ? p : s);
	if (!any) return 0;
	if (sgn) {
		if (ovf || (neg ? v > 1ULL << 63 : v > ~0ULL >> 1)) return neg ? 1ULL << 63 : ~0ULL >> 1;
		return neg ? 0 - v : v;
	}
	if (ovf) return ~0ULL;
	return neg ? 0 - v : v;
}
long M(strtol)(const char *s, char **e, int b) { return (long)stoull(s, e, b, 1, 0); }
long long M(strtoll)(const char *s, char **e, int b) { return (long long)stoull(s, e, b, 1, 0); }
unsigned long M(strtoul)(const char *s, char **e, int b) { return stoull(s, e, b, 0, 0); }
unsigned long long M(strtoull)(const char *s, char **e, int b) { return stoull(s, e, b, 0, 0); }
intmax_t M(strtoimax)(const char *s, char **e, int b) { return (intmax_t)stoull(s, e, b, 1, 0); }
uintmax_t M(strtoumax)(const char *s, char **e, int b) { return stoull(s, e, b, 0, 0); }
int M(atoi)(const char *s) { return (int)stoull(s, 0, 10, 1, 0); }
long M(atol)(const char *s) { return (long)stoull(s, 0, 10, 1, 0); }
#ifndef VF_SELFTEST
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return strtoll(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoull(s, e, b); }
#endif

int M(vsscanf)(const char *s, const char *f, va_list ap) {
	int n = 0; const char *s0 = s;
	while (*f) {
		if (M(isspace)((unsigned char)*f)) { while (M(isspace)((unsigned char)*s)) s++; f++; continue; }
		if (*f != '%') { if (*s != *f) return (n == 0 && !*s) ? -1 : n; s++; f++; continue; }
		f++;
		if (*f == '%') { while (M(isspace)((unsigned char)*s)) s++; if (*s != '%') return (n == 0 && !*s) ? -1 : n; s++; f++; continue; }
		int sup = 0, w = 0, len = 0;
		if (*f == '*') { sup = 1; f++; }
		while (*f >= '0' && *f <= '9') w = w * 10 + (*f++ - '0');
		if (*f == 'h') { len = -1; f++; if (*f == 'h') { len = -2; f++; } }
		else if (*f == 'l') { len = 1; f++; if (*f == 'l') f++; }
		else if (*f == 'z' || *f == 'j' || *f == 't') { len = 1; f++; }
		char c = *f++;
		if (c == 'n') { *va_arg(ap, int *) = (int)(s - s0); continue; }
		if (c == 'c') { if (!*s) return n ? n : -1; if (!sup) { *va_arg(ap, char *) = *s; n++; } s++; continue; }
		while (M(isspace)((unsigned char)*s)) s++;
		if (!*s) return n ? n : -1;
		if (c == 's') { char *d = sup ? 0 : va_arg(ap, char *); int k = 0; while (*s && !M(isspace)((unsigned char)*s) && (w == 0 || k < w)) { if (d) d[k] = *s; k++; s++; } if (d) { d[k] = 0; n++; } continue; }
		int base = c == 'x' || c == 'X' || c == 'p' ? 16 : c == 'o' ? 8 : c == 'i' ? 0 : 10; char *e;
		unsigned long long v = stoull(s, &e, base, c == 'd' || c == 'i', w);
		// scanf reads "0x" as a matching failure only when nothing else follows; a lone prefix converts as 0
		if (e == s) { return n; }
		s = e;
		if (!sup) { if (len == -2) *va_arg(ap, uint8_t *) = (uint8_t)v; else if (len == -1) *va_arg(ap, uint16_t *) = (uint16_t)v; else if (len == 1) *va_arg(ap, uint64_t *) = v; else *va_arg(ap, uint32_t *) = (uint32_t)v; n++; }
	}
	return n;
}
int M(sscanf)(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = M(vsscanf)(s, f, ap); va_end(ap); return r; }
#ifndef VF_SELFTEST
int __isoc99_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
int __isoc23_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
#endif

struct outb { char *p; size_t cap, n; };
static void oc(struct outb *o, char c) { if (o->n + 1 < o->cap) o->p[o->n] = c; o->n++; }
static void pad(struct outb *o, char c, int n) { for (; n > 0; n--) oc(o, c); }
int M(vsnprintf)(char *buf, size_t cap, const char *f, va_list ap) {
	struct outb o = { buf, cap, 0 };
	for (; *f; f++) {
		if (*f != '%') { oc(&o, *f); continue; }
		f++;
		int left = 0, zero = 0, plus = 0, spc = 0, alt = 0, w = 0, prec = -1, len = 0;
		for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == ' ') spc = 1; else if (*f == '#') alt = 1; else break; }
		if (*f == '*') { w = va_arg(ap, int); if (w < 0) { left = 1; w = -w; } f++; } else while (*f >= '0' && *f <= '9') w = w * 10 + (*f++ - '0');
		if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
		if (*f == 'h') { len = -1; f++; if (*f == 'h') { len = -2; f++; } }
		else if (*f == 'l') { len = 1; f++; if (*f == 'l') f++; }
		else if (*f == 'z' || *f == 'j' || *f == 't') { len = 1; f++; }
		char c = *f;
		if (c == '%') { oc(&o, '%'); continue; }
		if (c == 'c') { char ch = (char)va_arg(ap, int); if (!left) pad(&o, ' ', w - 1); oc(&o, ch); if (left) pad(&o, ' ', w - 1); continue; }
		if (c == 's') { const char *s = va_arg(ap, const char *); if (!s) s = "(null)"; size_t k = prec >= 0 ? M(strnlen)(s, prec) : M(strlen)(s); if (!left) pad(&o, ' ', w - (int)k); for (size_t i = 0; i < k; i++) oc(&o, s[i]); if (left) pad(&o, ' ', w - (int)k); continue; }
		unsigned long long v; int neg = 0; unsigned base = 10;
		if (c == 'd' || c == 'i') { long long sv = len == 1 ? va_arg(ap, long long) : va_arg(ap, int); if (len == -1) sv = (short)sv; if (len == -2) sv = (signed char)sv; neg = sv < 0; v = neg ? 0 - (unsigned long long)sv : (unsigned long long)sv; }
		else { v = len == 1 || c == 'p' ? va_arg(ap, unsigned long long) : va_arg(ap, unsigned int); if (len == -1) v = (unsigned short)v; if (len == -2) v = (unsigned char)v; if (c == 'x' || c == 'X' || c == 'p') base = 16; if (c == 'o') base = 8; }
		char tmp[24]; int k = 0; const char *dg = c == 'X' ? "0123456789ABCDEF" : "0123456789abcdef";
		unsigned long long t = v; while (t) { tmp[k++] = base == 16 ? dg[t & 15] : (char)('0' + t % base); t /= base; }
		if (k == 0 && prec != 0) tmp[k++] = '0';
		char sg = neg ? '-' : plus && (c == 'd' || c == 'i') ? '+' : spc && (c == 'd' || c == 'i') ? ' ' : 0; int pfx = (alt && base == 16 && v) || c == 'p' ? 2 : 0;
		int zs = prec > k ? prec - k : 0; if (alt && base == 8 && !zs && (!k || tmp[k - 1] != '0')) zs = 1; int tot = k + zs + (sg ? 1 : 0) + pfx;
		if (zero && !left && prec < 0 && w > tot) { zs += w - tot; tot = w; }
		if (!left) pad(&o, ' ', w - tot);
		if (sg) oc(&o, sg);
		if (pfx) { oc(&o, '0'); oc(&o, c == 'X' ? 'X' : 'x'); }
		pad(&o, '0', zs);
		while (k) oc(&o, tmp[--k]);
		if (left) pad(&o, ' ', w - tot);
	}
	if (cap) buf[o.n < cap ? o.n : cap - 1] = 0;
	return (int)o.n;
}
int M(snprintf)(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = M(vsnprintf)(b, n, f, ap); va_end(ap); return r; }
int M(sprintf)(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = M(vsnprintf)(b, (size_t)1 << 30, f, ap); va_end(ap); return r; }
int M(vsprintf)(char *b, const char *f, va_list ap) { return M(vsnprintf)(b, (size_t)1 << 30, f, ap); }

// ---- network
int M(inet_pton4)(const char *s, unsigned char *dst) {
	unsigned char tmp[4]; int oct = 0, saw = 0; unsigned v = 0; tmp[0] = 0; int ch; unsigned char *tp = tmp;
	while ((ch = (unsigned char)*s++)) {
		if (ch >= '0' && ch <= '9') { unsigned nv = *tp * 10u + (unsigned)(ch - '0'); if (saw && *tp == 0) return 0; if (nv > 255) return 0; *tp = (unsigned char)nv; if (!saw) { if (++oct > 4) return 0; saw = 1; } }
		else if (ch == '.' && saw) { if (oct == 4) return 0; *++tp = 0; saw = 0; }
		else return 0;
	}
	(void)v; if (oct < 4) return 0;
	memcpy(dst, tmp, 4); return 1;
}
static int pton6(const char *src, unsigned char *dst) {
	unsigned char tmp[16], *tp = tmp, *endp = tmp + 16, *colonp = 0; const char *curtok; int ch; size_t xd = 0; unsigned v = 0;
	for (int i = 0; i < 16; i++) tmp[i] = 0;
	if (!*src) return 0;
	if (*src == ':') { if (*++src != ':') return 0; }
	curtok = src;
	while ((ch = (unsigned char)*src)) {
		src++;
		int d = M(isxdigit)(ch) ? dig(ch) : -1;
		if (d >= 0) { if (xd == 4) return 0; v = v << 4 | (unsigned)d; if (v > 0xffff) return 0; xd++; continue; }
		if (ch == ':') { curtok = src; if (xd == 0) { if (colonp) return 0; colonp = tp; continue; } else if (!*src) return 0; if (tp + 2 > endp) return 0; *tp++ = (v >> 8) & 255; *tp++ = v & 255; xd = 0; v = 0; continue; }
		if (ch == '.' && tp + 4 <= endp) { if (M(inet_pton4)(curtok, tp) > 0) { tp += 4; xd = 0; break; } }
		return 0;
	}
	if (xd > 0) { if (tp + 2 > endp) return 0; *tp++ = (v >> 8) & 255; *tp++ = v & 255; }
	if (colonp) { if (tp == endp) return 0; size_t n = (size_t)(tp - colonp); for (size_t i = 1; i <= n; i++) { endp[-(ptrdiff_t)i] = colonp[n - i]; colonp[n - i] = 0; } tp = endp; }
	if (tp != endp) return 0;
	memcpy(dst, tmp, 16); return 1;
}
int M(inet_pton)(int af, const char *s, void *d) { if (af == 2) return M(inet_pton4)(s, d); if (af == 10) return pton6(s, d); return -1; }
const char *M(inet_ntop)(int af, const void *src, char *dst, unsigned sz) {
	const unsigned char *a = src; char tmp[64];
	if (af == 2) M(snprintf)(tmp, sizeof tmp, "%u.%u.%u.%u", a[0], a[1], a[2], a[3]);
	else if (af == 10) {
		unsigned w[8]; int bb = -1, bl = 0, cb = -1, cl = 0; for (int i = 0; i < 8; i++) w[i] = (unsigned)a[2 * i] << 8 | a[2 * i + 1];
		for (int i = 0; i < 8; i++) { if (w[i] == 0) { if (cb == -1) { cb = i; cl = 1; } else cl++; } else if (cb != -1) { if (bb == -1 || cl > bl) { bb = cb; bl = cl; } cb = -1; } }
		if (cb != -1 && (bb == -1 || cl > bl)) { bb = cb; bl = cl; }
		if (bb != -1 && bl < 2) bb = -1;
		char *tp = tmp;
		for (int i = 0; i < 8; i++) {
			if (bb != -1 && i >= bb && i < bb + bl) { if (i == bb) *tp++ = ':'; continue; }
			if (i) *tp++ = ':';
			if (i == 6 && bb == 0 && (bl == 6 || (bl == 7 && w[7] != 1) || (bl == 5 && w[5] == 0xffff))) { tp += M(snprintf)(tp, 20, "%u.%u.%u.%u", a[12], a[13], a[14], a[15]); break; }
			tp += M(snprintf)(tp, 8, "%x", w[i]);
		}
		if (bb != -1 && bb + bl == 8) *tp++ = ':';
		*tp = 0;
	} else return 0;
	if (M(strlen)(tmp) >= sz) return 0;
	return M(strcpy)(dst, tmp);
}
#ifndef VF_SELFTEST
#undef htons
#undef htonl
#undef ntohs
#undef ntohl
uint16_t htons(uint16_t x) { return __builtin_bswap16(x); }
uint16_t ntohs(uint16_t x) { return __builtin_bswap16(x); }
uint32_t htonl(uint32_t x) { return __builtin_bswap32(x); }
uint32_t ntohl(uint32_t x) { return __builtin_bswap32(x); }
#endif

// ---- sorting and searching
void M(qsort)(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) { // insertion sort: sorts under any consistent order
	char *b = base;
	for (size_t i = 1; i < n; i++)
		for (size_t j = i; j > 0 && cmp(b + (j - 1) * sz, b + j * sz) > 0; j--)
			for (size_t k = 0; k < sz; k++) { char t = b[(j - 1) * sz + k]; b[(j - 1) * sz + k] = b[j * sz + k]; b[j * sz + k] = t; }
}
#ifdef VF_SELFTEST
#define FORK(x) (x)
#else
uint64_t vf_concrete(uint64_t);
#define FORK(x) vf_concrete(x)	// one path per side, else the compiler makes the position a symbolic value
#endif
void *M(bsearch)(const void *key, const void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
	size_t lo = 0, hi = n; const char *b = base;
	while (lo < hi) { size_t m = lo + (hi - lo) / 2; int c = cmp(key, b + m * sz); if (c == 0) return (void *)(b + m * sz); if (FORK(c < 0)) hi = m; else lo = m + 1; }
	return 0;
}
int M(abs)(int x) { return x < 0 ? -x : x; }

// ---- stdio on memory
#ifndef VF_SELFTEST
struct vf_file { char *data; size_t n, pos, cap; int std; };
struct vf_file vf_std;
static char *vf_fdata; static size_t vf_flen; static int vf_fexists;
void vf_set_file(const char *d, size_t n) { vf_fdata = (char *)d; vf_flen = n; vf_fexists = d != 0; }
void *fopen(const char *n, const char *m) { if (!vf_fexists) return 0; struct vf_file *f = malloc(sizeof *f); f->data = vf_fdata; f->n = vf_flen; f->pos = 0; f->cap = 0; f->std = 0; return f; }
void *vf_mem_file(void) { struct vf_file *f = malloc(sizeof *f); f->data = malloc(8192); f->n = 0; f->pos = 0; f->cap = 8192; f->std = 0; return f; }
char *vf_mem_done(void *fp) { struct vf_file *f = fp; f->data[f->n] = 0; char *r = f->data; free(f); return r; }
int fclose(void *fp) { free(fp); return 0; }
int fgetc(void *fp) { struct vf_file *f = fp; if (f->pos >= f->n) return -1; return (unsigned char)f->data[f->pos++]; }
int getc(void *fp) { return fgetc(fp); }
int feof(void *fp) { struct vf_file *f = fp; return f->pos >= f->n; }
int ferror(void *fp) { return 0; }
char *fgets(char *b, int n, void *fp) { struct vf_file *f = fp; int i = 0; if (f->pos >= f->n) return 0; while (i < n - 1 && f->pos < f->n) { char c = f->data[f->pos++]; b[i++] = c; if (c == '\n') break; } b[i] = 0; return b; }
ssize_t getline(char **lp, size_t *np, void *fp) { struct vf_file *f = fp; if (f->pos >= f->n) return -1; size_t e = f->pos; while (e < f->n && f->data[e] != '\n') e++; if (e < f->n) e++; size_t k = e - f->pos; if (!*lp || *np < k + 1) { *lp = realloc(*lp, k + 1 > 120 ? k + 1 : 120); *np = k + 1 > 120 ? k + 1 : 120; } memcpy(*lp, f->data + f->pos, k); (*lp)[k] = 0; f->pos = e; return (ssize_t)k; }
static void fput(struct vf_file *f, char c) { if (!f || f->cap == 0) return; if (f->n + 1 < f->cap) f->data[f->n++] = c; }
int fputc(int c, void *fp) { fput(fp, (char)c); return c; }
int putc(int c, void *fp) { fput(fp, (char)c); return c; }
int fputs(const char *s, void *fp) { for (; *s; s++) fput(fp, *s); return 1; }
size_t fwrite(const void *p, size_t s, size_t n, void *fp) { for (size_t i = 0; i < s * n; i++) fput(fp, ((const char *)p)[i]); return n; }
int fflush(void *fp) { return 0; }
int vfprintf(void *fp, const char *f, va_list ap) { struct vf_file *o = fp; if (!o || o->cap == 0) return 0; int k = vsnprintf(o->data + o->n, o->cap - o->n, f, ap); o->n += (size_t)k; return k; }
int fprintf(void *fp, const char *f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(fp, f, ap); va_end(ap); return r; }
int printf(const char *f, ...) { return 0; }
int puts(const char *s) { return 0; }
int putchar(int c) { return c; }
void perror(const char *s) { }
char *strerror(int e) { return (char *)"error"; }
char *dirname(char *p) { char *e; if (!p || !*p) return (char *)"."; e = M(strrchr)(p, '/'); while (e && e > p && !e[1]) { *e = 0; e = M(strrchr)(p, '/'); } if (!e) return (char *)"."; while (e > p && *e == '/') *e-- = 0; if (e == p && *e == '/') e[1] = 0; return p; }
char *getenv(const char *n) { return 0; }
// x86 instructions: CRC32 (Intel SDM: the operand's octets from the lowest up, reflected polynomial 0x82f63b78) and CPUID
static unsigned vf_crc_tab[256];
static unsigned vf_crc(unsigned c, unsigned long v, int n) {
	if (!vf_crc_tab[1]) for (unsigned i = 0; i < 256; i++) { unsigned x = i; for (int k = 0; k < 8; k++) x = x >> 1 ^ (x & 1 ? 0x82f63b78u : 0); vf_crc_tab[i] = x; }
	for (int i = 0; i < n; i++, v >>= 8) c = vf_crc_tab[(c ^ (unsigned)v) & 255] ^ c >> 8;
	return c;
}
unsigned vf_asm_crc32b(unsigned char v, unsigned c) { return vf_crc(c, v, 1); }
unsigned vf_asm_crc32w(unsigned short v, unsigned c) { return vf_crc(c, v, 2); }
unsigned vf_asm_crc32l(unsigned v, unsigned c) { return vf_crc(c, v, 4); }
unsigned long vf_asm_crc32q(unsigned long v, unsigned long c) { return vf_crc((unsigned)c, v, 8); }
unsigned vf_cpu_sse42 = 1;
unsigned vf_asm_cpuid(unsigned level, unsigned reg) { return level == 1 && reg == 2 ? vf_cpu_sse42 << 20 : 0; }
#endif
