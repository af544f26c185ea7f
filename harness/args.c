// P48: command-line arguments set exactly the variables they name (libmy/argv.c)
#include "vf.h"
#include <ctype.h>
static const char *envtext; static char envname[8]; static int envread;
static char *vp_getenv(const char *n) { envread++; return strcmp(n, "ARGV_P") == 0 ? (char *)envtext : NULL; }
#define getenv(n) vp_getenv(n)
#include "libmy/argv.c"
#undef getenv
#ifdef MANY
#define MAXL 64
#else
#define MAXL 12
#endif
// the variables, and what they are expected to hold
static char vb = 2, vc = 'q'; static int vn = 70, vi = 3; static char *vs = "old", *vm = "mand", *vo = "opt"; static argv_array_t va, vq; static char vx = 5, vy = 6, vz = 7;
static char eb = 2; static int en = 70, ei = 3; static const char *es, *em, *eo; static int ea[MAXL], na; static const char *eq[MAXL]; static int nq; static char ex = 5, ey = 6, ez = 7;
#if TABLE == 0
static argv_t tab[] = { { 'b', "bee", ARGV_BOOL, &vb, NULL, NULL }, { 'n', "num", ARGV_INT, &vn, NULL, NULL }, { 's', "nod", ARGV_CHAR_P, &vs, NULL, NULL }, { 'i', NULL, ARGV_INCR, &vi, NULL, NULL },
	{ 'a', "arr", ARGV_INT | ARGV_FLAG_ARRAY, &va, NULL, NULL }, { ARGV_MAND, NULL, ARGV_CHAR_P, &vm, NULL, NULL }, { ARGV_MAYBE, NULL, ARGV_CHAR_P, &vo, NULL, NULL }, { ARGV_LAST } };
#elif TABLE == 1
// -b or -n or -i, at most one; -x or -y, exactly one; -z must be given
static argv_t tab[] = { { 'b', "bee", ARGV_BOOL, &vb, NULL, NULL }, { ARGV_OR }, { 'n', "num", ARGV_INT, &vn, NULL, NULL }, { ARGV_OR }, { 'i', NULL, ARGV_INCR, &vi, NULL, NULL },
	{ 'z', NULL, ARGV_BOOL_NEG | ARGV_FLAG_MAND, &vz, NULL, NULL }, { 'x', NULL, ARGV_BOOL, &vx, NULL, NULL }, { ARGV_XOR }, { 'y', NULL, ARGV_BOOL, &vy, NULL, NULL }, { ARGV_LAST } };
#else
// a mandatory array takes all that is left
static argv_t tab[] = { { 'n', "num", ARGV_INT, &vn, NULL, NULL }, { 's', "nod", ARGV_CHAR_P, &vs, NULL, NULL }, { ARGV_MAND, NULL, ARGV_CHAR_P, &vm, NULL, NULL }, { ARGV_MAND, NULL, ARGV_CHAR_P | ARGV_FLAG_ARRAY, &vq, NULL, NULL }, { ARGV_LAST } };
#endif
#define NT ((int)(sizeof tab / sizeof tab[0]) - 1)
#define TOFILE 99
// ---- what the arguments mean
static bool valid = true, used[NT + 1]; static int wait[64], wh, wt, strs; static bool multi = true, closing = true, toggle = false; static const char *filetext; static bool again;
static int number(const char *t) {
	while (*t == ' ' || (*t >= 9 && *t <= 13)) t++;
	int sg = 1, v = 0; if (*t == '-') { sg = -1; t++; } else if (*t == '+') t++;
	while (*t >= '0' && *t <= '9') v = v * 10 + (*t++ - '0');
	return sg * v;
}
static void put(int e, const char *t) {                  // the variable of entry e takes the text
	void *p = tab[e].ar_variable;
	if (p == &vn) en = number(t); else if (p == &vs) { if (es) again = true; es = t; } else if (p == &vm) em = t; else if (p == &vo) eo = t;
	else if (p == &va) { vf_assume(na < MAXL); ea[na++] = number(t); } else if (p == &vq) { vf_assume(nq < MAXL); eq[nq++] = t; }
	else if (p == &vi) ei = t ? number(t) : ei + 1;
	else { char on = p == &vz ? 0 : 1; if (t) on = (*t == 't') | (*t == 'T') | (*t == 'y') | (*t == 'Y') | (*t == '1'); if (p == &vb) eb = on; else if (p == &vx) ex = on; else if (p == &vy) ey = on; else ez = on; }
}
static bool joined(int i) { return tab[i].ar_short_arg == ARGV_OR || tab[i].ar_short_arg == ARGV_XOR; }
static void option(int e, const char *value) {
	void *p = tab[e].ar_variable; bool takes = p == &vn || p == &vs || p == &va;
	if (!multi && used[e] && p != &va && p != &vi) valid = false;
	used[e] = true;
	for (int i = e; i >= 2 && joined(i - 1); i -= 2) if (used[i - 2]) valid = false;
	for (int i = e; joined(i + 1); i += 2) if (used[i + 2]) valid = false;
	if (value) put(e, value); else if (!takes) put(e, NULL); else { vf_assume(wh < 64); wait[wh++] = e; }
}
static void list(char **v, int n);
static void file(const char *name) {
	vf_assume(!(name[0] == 45 && !name[1]));            // (standard input)
	if (!filetext) { valid = false; return; }
	char *l[MAXL]; int n = 0; const char *t = filetext; while (*t) { size_t k = 0; while (t[k] && t[k] != '\n') k++; if (k) { l[n] = malloc(MAXL); memcpy(l[n], t, k); l[n++][k] = 0; } t += k; if (*t) t++; }
	char **held = malloc(sizeof l); memcpy(held, l, sizeof l); list(held, n);      // (kept: the texts may be values)
}
static bool starts(const char *name, size_t k, const char *full) { return strlen(full) >= k && memcmp(name, full, k) == 0; }
static void list(char **v, int n) {
	bool ended = false;
	for (int a = 0; a < n; a++) {
		char *t = v[a], *eqs = NULL; size_t k = strlen(t);
		if (k == 2 && t[0] == '-' && t[1] == '-') { if (!ended) { ended = true; continue; } if (toggle) { ended = false; continue; } }
		bool lng = !ended && k >= 2 && t[0] == '-' && t[1] == '-', sht = !ended && !lng && k >= 2 && t[0] == '-';
		if (lng || sht) { if (closing) for (size_t i = 0; i < k; i++) if (t[i] == '=') { eqs = t + i + 1; k = i; break; } }
		if (lng) {
			if (k <= 2) { valid = false; continue; }
			int hit = -1, hits = 0; for (int i = 0; i < NT; i++) if (tab[i].ar_long_arg && starts(t + 2, k - 2, tab[i].ar_long_arg)) { hit = i; hits++; }
			if (hits == 1) option(hit, eqs); else if (hits > 1) { valid = false; vf_witness("ambiguous"); }
			else if (starts(t + 2, k - 2, "argv-file")) { if (eqs) file(eqs); else { vf_assume(wh < 64); wait[wh++] = TOFILE; } }
			else if (!starts(t + 2, k - 2, "usage") && !starts(t + 2, k - 2, "help") && !starts(t + 2, k - 2, "usage-short") && !starts(t + 2, k - 2, "usage-long") && !starts(t + 2, k - 2, "usage-all") && !starts(t + 2, k - 2, "version") && !starts(t + 2, k - 2, "argv-display")) valid = false;
			continue;
		}
		if (sht) {
			if (k == 1) { valid = false; continue; }
			bool num = true; for (size_t i = 0; i < k; i++) if (!((t[i] >= '0') & (t[i] <= '9')) && t[i] != '+' && t[i] != '-' && t[i] != '.') { num = false; break; }
			for (size_t c = 1; c < k; c++) {
				int e = -1; for (int i = 0; e < 0 && i < NT; i++) if (tab[i].ar_short_arg == t[c]) e = i;
				if (e >= 0) { option(e, eqs); continue; }
				if (t[c] == '?') continue;
				if (c == 1 && num && wh > wt && wait[wt] != TOFILE && (tab[wait[wt]].ar_variable == &vn || tab[wait[wt]].ar_variable == &va)) { char *w = malloc(k + 1); memcpy(w, t, k); w[k] = 0; put(wait[wt++], w); vf_witness("negative"); break; }
				valid = false;
			}
			continue;
		}
		if (wh > wt) { int e = wait[wt++]; if (e == TOFILE) file(t); else put(e, t); continue; }
		int e = -1; for (int i = 0; e < 0 && i < NT; i++) if (tab[i].ar_short_arg == ARGV_MAND && (!used[i] || tab[i].ar_variable == &vq)) e = i;
		for (int i = 0; e < 0 && i < NT; i++) if (tab[i].ar_short_arg == ARGV_MAYBE && !used[i]) e = i;
		if (e < 0) { valid = false; continue; }
		used[e] = true; put(e, t);
	}
}
static void rest(void) {                                 // what is missing
	if (wh > wt) valid = false;
	for (int i = 0; i < NT; i++) {
		if (!used[i] && (tab[i].ar_short_arg == ARGV_MAND || (tab[i].ar_type & ARGV_FLAG_MAND))) valid = false;
		if (tab[i].ar_short_arg == ARGV_XOR && !used[i - 1] && !used[i + 1]) valid = false;
	}
}
static char *text(const char *form) {                    // \1: any 7-bit character
	size_t n = strlen(form); char *t = malloc(n + 1); for (size_t i = 0; i <= n; i++) { t[i] = form[i]; if (t[i] == 1) { t[i] = (char)vf_u8(); vf_assume((t[i] > 0)); } } return t;
}
static const char *forms[] = { FORMS };
#define NFORM (sizeof forms / sizeof forms[0])
static void held(const char *got, const char *want, const char *dflt) {
	if (!want) { vf_assert(got == dflt, "the variable of an option that is not given stays"); return; }
	vf_assert(got != dflt && strcmp(got, want) == 0, "the string is held"); vf_observe_bytes(got, strlen(got));
}
void vf_main(void) {
	argv_interactive = 0; argv_error_stream = NULL; argv_env_after_b = 0; argv_process_env_b = 1;
	const char *s0 = vs, *m0 = vm, *o0 = vo; char *argv[ARGS + 3], *mine[ARGS + 3]; int n = 0;
	argv[0] = malloc(4); memcpy(argv[0], "x/p", 4); envtext = NULL; char *ecopy[2]; int ne = 0;
#if defined MANY	// many of a kind: values attached, values that follow, and both in a file
	static char lines[MANY * 6 + 1]; int m = (int)vf_choose(MANY + 1), kind = (int)vf_choose(3); bool infile = vf_choose(2);
	for (int i = 0; i < m; i++) { char w[6]; if (kind == 0) { memcpy(w, "-a=0", 5); w[3] += i % 10; } else if (kind == 1 && i < m / 2) memcpy(w, "-a", 3); else { w[0] = '0' + i % 10; w[1] = 0; }
		if (infile) { strcat(lines, w); strcat(lines, "\n"); } else argv[++n] = text(w); }
	if (infile) argv[++n] = text("--argv-file=f"); if (TABLE == 0) argv[++n] = text("9");
#elif defined ANY
	size_t k = vf_choose(ANY + 1); argv[1] = malloc(k + 1); for (size_t i = 0; i < k; i++) { argv[1][i] = (char)vf_u8(); vf_assume(argv[1][i] > 0); } argv[1][k] = 0; n = 1;
#else
	n = (int)vf_choose(ARGS + 1); for (int i = 0; i < n; i++) argv[i + 1] = text(forms[vf_choose(NFORM)]);
#endif
	for (int i = 0; i < n; i++) mine[i] = vf_dup(argv[i + 1], strlen(argv[i + 1]) + 1);
#ifdef SET
	unsigned set = (unsigned)vf_choose(4); if (set & 1) { multi = false; argv_multi_accept_b = 0; } if (set & 2) { toggle = true; argv_last_toggle_b = 1; } if (set == 3) { closing = false; argv_close_enable_b = 0; }
#endif
#ifdef ENV
	static char es_[64]; size_t el = 0; bool after = false, off = false; ne = (int)vf_choose(3); unsigned how = (unsigned)vf_choose(3); after = how == 1; off = how == 2; argv_env_after_b = after; argv_process_env_b = !off;
	for (int i = 0; i < ne; i++) { ecopy[i] = text(forms[vf_choose(NFORM)]); size_t q = strlen(ecopy[i]); vf_assume(q > 0); for (size_t j = 0; j < q; j++) vf_assume((ecopy[i][j] != ' ') & (ecopy[i][j] != 9)); memcpy(es_ + el, ecopy[i], q); el += q; es_[el++] = i ? ' ' : 9; } es_[el] = 0;
	if (ne || vf_choose(2)) envtext = es_;
#endif
#ifdef MANY
	filetext = infile ? lines : NULL; vf_set_file(filetext, filetext ? strlen(filetext) : 0);
#elif defined FILES
	static const char *files[] = { NULL, "", "-b\n", "-n\n7", "5\n\n-i\n-n\n", "--nod=z\n-\n" }; filetext = files[vf_choose(6)]; vf_set_file(filetext, filetext ? strlen(filetext) : 0);
#else
	vf_set_file(NULL, 0);
#endif
	argv[n + 1] = NULL;
#ifdef ENV
	if (!off && !after) list(ecopy, ne);
#endif
	list(mine, n);
#ifdef ENV
	if (!off && after) list(ecopy, ne);
#endif
	rest();
	size_t l0 = vf_live(); int r = argv_process_no_env(tab, n + 1, argv); vf_observe(r == 0);
	vf_assert(r == 0 || r == -1, "the result"); vf_assert((r == 0) == valid, "the arguments are accepted exactly when they are valid");
	vf_assert(strcmp(argv_program, "p") == 0 && argv_argv == argv && argv_argc == n + 1, "the program's name and arguments");
	if (r == 0 && valid) {
		vf_witness("accepted");
		vf_assert(vb == eb && vn == en && vi == ei && vx == ex && vy == ey && vz == ez, "exactly the variables named are set"); vf_observe(vb); vf_observe(vn); vf_observe(vi);
		held(vs, es, s0); held(vm, em, m0); held(vo, eo, o0);
		vf_assert(va.aa_entry_n == na && vq.aa_entry_n == nq, "arrays have every value"); if (na > 20 || nq > 20) vf_witness("many"); for (int i = 0; i < na; i++) { vf_assert(ARGV_ARRAY_ENTRY(va, int, i) == ea[i], "arrays hold the values in order"); vf_witness("array"); } for (int i = 0; i < nq; i++) { vf_assert(strcmp(ARGV_ARRAY_ENTRY(vq, char *, i), eq[i]) == 0, "arrays hold the values in order"); vf_witness("array"); }
		for (int i = 0; i < NT; i++) if (!joined(i)) { vf_assert(!argv_entry_was_used(&tab[i]) == !used[i], "what was given is known"); if (tab[i].ar_short_arg < 0) continue; vf_assert(!argv_was_used(tab, tab[i].ar_short_arg) == !used[i], "what was given is known"); if (tab[i].ar_long_arg) vf_assert(!argv_long_was_used(tab, tab[i].ar_long_arg) == !used[i], "what was given is known"); }
		argv_cleanup(tab); if (!again) vf_assert(vf_live() == l0, "nothing is leaked"); vf_assert(va.aa_entry_n == 0 && vq.aa_entry_n == 0, "cleared");
	} else vf_witness("refused");
}
