// Long texts: labels of 62..64 (LONG: 63, 63, 63 and 60..62) characters with two adjacent arbitrary characters near a limit.
#define main_of_strname
#include "names.h"
#include "wdns.h"
#define REFONLY
#include "strname.c"
void vf_main(void) {
#ifdef LONG
	size_t lab[4] = { 63, 63, 63, 60 + vf_choose(3) }, k = 4;
#else
	size_t lab[1] = { 62 + vf_choose(3) }, k = 1;
#endif
	char *s = malloc(300); size_t n = 0, at[64], na = 0;
	for (size_t i = 0; i < k; i++) {
		if (i) s[n++] = '.';
		for (size_t j = 0; j < lab[i]; j++) {
#ifdef LONG
			if (j < 1 || j + 3 > lab[i]) at[na++] = n;
#else
			if (j + 1 < lab[i] || 1) at[na++] = n;
#endif
			s[n++] = 'q'; if (na == 64) na--;
		}
	}
	if (vf_choose(2)) s[n++] = '.';
	s[n] = 0; size_t a = at[vf_choose(na)];
	for (size_t i = a; i < a + 2 && i < n; i++) { s[i] = (char)vf_u8(); vf_assume(s[i] != 0); }
	char *t = vf_dup(s, n + 1);
	check(t);
}
