// P53: reading, waiting, numbers from the environment and printing octets
#include "vf.h"
#include <assert.h>
#include <errno.h>
#include <unistd.h>
#include <time.h>
#if MODE == 0
static uint8_t src[N + 2]; static size_t len, pos, want; static int calls; static bool ended; static uint8_t *dst;
static ssize_t vp_read(int fd, void *b, size_t n) {
	vf_assert(fd == 3 && !ended, "nothing is read after the end or an error"); vf_assert((uint8_t *)b == dst + pos && n == want - pos, "what is missing is read, to its place"); if (++calls > N + 3) vf_assume(0);
	unsigned how = (unsigned)vf_choose(4); errno = (int)vf_choose(2) ? EINTR : EIO;
	if (how == 0) { errno = EINTR; vf_witness("interrupted"); return -1; } if (how == 1) { errno = EIO; ended = true; return -1; }
	if (how == 2 || pos == len) { ended = true; return 0; }
	size_t k = 1 + vf_choose(n); vf_assume(k <= n && k <= len - pos); memcpy(b, src + pos, k); pos += k; return (ssize_t)k;
}
#define read(f, b, n) vp_read(f, b, n)
#include "libmy/read_bytes.h"
#elif MODE == 1
static const char *envtext;
static char *vp_getenv(const char *n) { vf_assert(strcmp(n, "VAR") == 0, "the variable asked for"); return (char *)envtext; }
#define getenv(n) vp_getenv(n)
#include "libmy/getenv_int.h"
static int dig(char c) { if ((c >= '0') & (c <= '9')) return c - '0'; c |= 32; if ((c >= 'a') & (c <= 'z')) return c - 'a' + 10; return 99; }
#elif MODE == 2
static struct timespec left; static int tries; static bool over;
static int vp_nanosleep(const struct timespec *a, struct timespec *b) {
	vf_assert(!over, "not again"); vf_assert((a->tv_sec == left.tv_sec) & (a->tv_nsec == left.tv_nsec), "what is left is slept"); unsigned how = ++tries > 3 ? 0 : (unsigned)vf_choose(3);
	if (how == 0) { left.tv_sec = left.tv_nsec = 0; over = true; return 0; }
	if (how == 1) { errno = EINVAL; over = true; return -1; }
	struct timespec r; r.tv_sec = vf_u8(); r.tv_nsec = (long)vf_u32(); vf_assume((r.tv_nsec < 1000000000) & ((r.tv_sec < left.tv_sec) | ((r.tv_sec == left.tv_sec) & (r.tv_nsec <= left.tv_nsec)))); left = *b = r; errno = EINTR; vf_witness("interrupted"); return -1;
}
#define nanosleep(a, b) vp_nanosleep(a, b)
#include "my_time.h"
#else
#include "libmy/print_string.h"
static int hx(char c) { return (c >= '0') & (c <= '9') ? c - '0' : (c >= 'a') & (c <= 'f') ? c - 'a' + 10 : 99; }
#endif
void vf_main(void) {
	size_t live = vf_live();
#if MODE == 0
	want = vf_choose(N + 1); len = vf_choose(N + 2); for (size_t i = 0; i < len; i++) src[i] = vf_u8(); dst = malloc(want + 1); dst[want] = 0xee; uint8_t *b = dst;
	bool r = read_bytes(3, b, want); vf_observe(r); vf_assert(r == (pos == want), "success exactly if all was read"); if (r && want) vf_witness("read"); if (!r) { vf_assert(ended, "it fails only at the end or an error"); vf_witness("failed"); }
	for (size_t i = 0; i < pos; i++) vf_assert(b[i] == src[i], "in order"); vf_assert(b[want] == 0xee, "and no more"); free(dst);
#elif MODE == 1
	size_t n = vf_choose(N + 1); char *s = malloc(n + 1); for (size_t i = 0; i < n; i++) { s[i] = (char)vf_u8(); vf_assume(s[i] != 0); } s[n] = 0; bool missing = n == 0 && vf_choose(2); envtext = missing ? NULL : s;
	uint64_t v = 77, w = 0; bool r = getenv_int("VAR", &v), good = false, neg = false; size_t i = 0; unsigned base = 10;
	while (i < n && ((s[i] == ' ') | ((s[i] >= 9) & (s[i] <= 13)))) i++;
	if (i < n && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
	if (i < n && s[i] == '0') { base = 8; if (i + 2 < n && (s[i + 1] | 32) == 'x' && dig(s[i + 2]) < 16) { base = 16; i += 2; } }
	while (i < n && dig(s[i]) < (int)base) { w = w * base + (uint64_t)dig(s[i++]); good = true; }
	good = good && i == n; vf_observe(r); vf_assert(r == good, "exactly numbers are accepted"); if (missing) vf_assert(v == 77, "what is not set changes nothing");
	if (r && good) { vf_observe(v); vf_assert(v == (neg ? 0 - w : w), "the number"); vf_witness("number"); if (base == 16) vf_witness("hexadecimal"); } if (!r) vf_witness("refused"); free(s);
#elif MODE == 2
	struct timespec t; t.tv_sec = vf_u8(); t.tv_nsec = (long)vf_u32(); vf_assume(t.tv_nsec < 1000000000); left = t; struct timespec t0 = t;
	my_nanosleep(&t); vf_assert(over, "until it is over"); vf_assert((t.tv_sec == t0.tv_sec) & (t.tv_nsec == t0.tv_nsec), "the time given is left alone"); vf_observe((uint64_t)tries); if (tries > 2) vf_witness("slept");
#else
	size_t n = vf_choose(N + 1); uint8_t *s = malloc(n + 1); for (size_t i = 0; i < n; i++) s[i] = vf_u8(); FILE *f = vf_mem_file(); print_string(s, n, f); char *o = vf_mem_done(f); size_t l = strlen(o), at = 1; vf_observe_bytes(o, l);
	vf_assert(l >= 2 && o[0] == '"' && o[l - 1] == '"', "in quotes");
	for (size_t i = 0; i < n; i++) {
		vf_assert(at < l - 1, "every octet is printed"); unsigned c = (uint8_t)o[at++]; vf_assert((c >= 32) & (c <= 126), "as printable characters"); vf_assert(c != '"', "the text ends at its end");
		if (c == '\\') { vf_assert(at < l - 1, "an escape"); if (o[at] == 'x') { vf_assert(at + 2 < l - 1, "an escape"); c = (unsigned)(hx(o[at + 1]) * 16 + hx(o[at + 2])); at += 3; vf_witness("escaped"); } else { c = (uint8_t)o[at++]; vf_assert(c == '"' || c == '\\', "an escape"); vf_witness("quoted"); } }
		vf_assert(c == s[i], "every octet can be read back");
	}
	vf_assert(at == l - 1, "and no more"); free(o); free(s);
#endif
	vf_assert(vf_live() == live, "nothing is leaked");
}
