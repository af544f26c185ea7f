// file_load_names: one callback per name line, in order, with the name str_to_name gives; stops at the first bad line; closes the file; no overrun
#include "names.h"
#include "wdns.h"
static char *txt; static size_t ntxt; static unsigned ncb; static uint8_t seen[400][256]; static unsigned seenlen[400];
static int tag;
static void cb(wdns_name_t *n, void *u) { vf_assert(u == &tag, "the user pointer is passed on"); if (ncb < 400) { seenlen[ncb] = n->len; memcpy(seen[ncb], n->data, n->len); } ncb++; vf_observe_bytes(n->data, n->len); free(n->data); }
void vf_main(void) {
	size_t live = vf_live();
	if (vf_choose(2)) { vf_set_file(NULL, 0); vf_assert(wdns_file_load_names("x", cb, &tag) != wdns_res_success && ncb == 0, "a missing file is an error"); vf_witness("missing"); return; }
#ifdef MANY	// many lines: names, some comments and empty lines, one line that begins with an arbitrary octet, perhaps a bad one
	static const uint16_t num[] = { 2, 15, 16, 17, 63, 64, 65, 127, 128, 255, 256, 257, 300 }; size_t lines = num[vf_choose(13)], at = vf_choose(3), bad = vf_choose(2), w = vf_choose(2); at = at == 0 ? 0 : at == 1 ? lines / 2 : lines - 1; txt = malloc(lines * 40);
	for (size_t i = 0; i < lines; i++) {
		if (i % 7 == 3) { memcpy(txt + ntxt, "# x..y\n", 7); ntxt += 7; } if (i % 11 == 5) txt[ntxt++] = '\n';
		txt[ntxt++] = i == at ? (char)vf_u8() : (char)('A' + i % 26); txt[ntxt++] = (char)('a' + i / 26); if (bad && i == lines - 2 && i) txt[ntxt++] = '.'; txt[ntxt++] = '.'; memset(txt + ntxt, 'm', 20); if (w) ntxt += i % 20 + 1; else txt[ntxt++] = 'x'; if (i + 1 < lines || vf_choose(2)) txt[ntxt++] = '\n';
	}
	txt = (char *)vf_dup((uint8_t *)txt, ntxt);
#elif defined LONG	// a name of up to 1025 characters and a line end fits the line buffer
	ntxt = 1000 + vf_choose(40); txt = malloc(ntxt); memset(txt, 'a', ntxt); for (size_t i = 0; i + 1 < ntxt; i += 64) txt[i] = '.'; txt[0] = 'a'; txt[ntxt - 1] = '\n';
#else
	ntxt = vf_choose(N + 1); txt = (char *)vf_buf(ntxt);
#endif
	vf_set_file(txt, ntxt); live = vf_live();
	wdns_res r = wdns_file_load_names("x", cb, &tag); vf_observe(r); vf_observe(ncb);
	vf_assert(vf_live() == live, "the file is closed and nothing else is left");
	// reference: lines; a NUL ends the text of a line as C strings do
	unsigned want = 0; wdns_res wr = wdns_res_success;
	for (size_t i = 0; i < ntxt;) {
		size_t e = i; while (e < ntxt && txt[e] != '\n') e++;
		char c = txt[i];
		if (!(c == '\n' || c == ' ' || c == '#')) {
			char *l = malloc(e - i + 1); memcpy(l, txt + i, e - i); l[e - i] = 0;
			wdns_name_t nm; wr = wdns_str_to_name(l, &nm); 
			if (wr != wdns_res_success) break;
			vf_assert(want < ncb && seenlen[want] == nm.len && memcmp(seen[want], nm.data, nm.len) == 0, "names in order"); want++;
			if (want > 1) vf_witness("two names");
		}
		i = e + 1;
	}
	vf_assert(ncb == want, "one callback per name");
	vf_assert(r == wr, "result of the first bad line");
	if (r != wdns_res_success) vf_witness("bad line");
}
