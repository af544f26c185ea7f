// P48: settings in the environment (GLOBAL_ARGV) do exactly what they say, once
#include "vf.h"
#include <ctype.h>
static const char *envtext; static int envread;
static char *vp_getenv(const char *n) { if (strcmp(n, "GLOBAL_ARGV")) return NULL; envread++; return (char *)envtext; }
#define getenv(n) vp_getenv(n)
#include "libmy/argv.c"
#undef getenv
static const struct { const char *t; int var, val; } tok[] = {
	{ "close=disable", 0, 0 }, { "close=off", 0, 0 }, { "close=no", 0, 0 }, { "close=0", 0, 0 }, { "close=enable", 0, 1 }, { "close=on", 0, 1 }, { "close=yes", 0, 1 }, { "close=1", 0, 1 },
	{ "lasttog=disable", 1, 0 }, { "lasttog=off", 1, 0 }, { "lasttog=no", 1, 0 }, { "lasttog=0", 1, 0 }, { "lasttog=enable", 1, 1 }, { "lasttog=on", 1, 1 }, { "lasttog=yes", 1, 1 }, { "lasttog=1", 1, 1 },
	{ "env=none", 2, 0 }, { "env=before", 2, 1 }, { "env=after", 2, 3 }, { "multi=reject", 3, 0 }, { "multi=accept", 3, 1 },
	{ "error=none", 4, ARGV_USAGE_NONE }, { "error=see", 4, ARGV_USAGE_SEE }, { "error=short", 4, ARGV_USAGE_SHORT }, { "error=shortrem", 4, ARGV_USAGE_SHORT_REM }, { "error=long", 4, ARGV_USAGE_LONG }, { "error=all", 4, ARGV_USAGE_ALL },
	{ "usage=short", 5, ARGV_USAGE_SHORT }, { "usage=shortrem", 5, ARGV_USAGE_SHORT_REM }, { "usage=long", 5, ARGV_USAGE_LONG }, { "usage=all", 5, ARGV_USAGE_ALL },
	{ "close=", -1, 0 }, { "close=of", -1, 0 }, { "env=afterx", -1, 0 }, { "multi", -1, 0 }, { "error=\1", -1, 0 }, { "usage=\1\1", -1, 0 }, { "\1\1", -1, 0 }, { "lasttog=\1", -2, 0 }, { "close=\1", -3, 0 }, { "", -1, 0 } };
#define NTOK (sizeof tok / sizeof tok[0])
static int flag;
static argv_t tab[] = { { 'n', NULL, ARGV_INT, &flag, NULL, NULL }, { ARGV_LAST } };
static void settings(const int *v) {
	vf_assert(argv_close_enable_b == v[0], "attached values"); vf_assert(argv_last_toggle_b == v[1], "toggling"); vf_assert(argv_process_env_b == (v[2] & 1) && argv_env_after_b == v[2] >> 1, "arguments from the environment"); vf_assert(argv_multi_accept_b == v[3], "repeated options"); vf_assert(argv_error_type == v[4], "what is said of errors"); vf_assert(argv_usage_type == v[5], "what usage is shown");
}
void vf_main(void) {
	static const char sep[] = " \t,:"; char text[64]; size_t k = 0; argv_interactive = 0; argv_error_stream = NULL; int n = (int)vf_choose(TOKS + 1); bool set = n || vf_choose(2);
	int v[6] = { argv_close_enable_b, argv_last_toggle_b, argv_process_env_b | argv_env_after_b << 1, argv_multi_accept_b, argv_error_type, argv_usage_type };
	for (int i = 0; i < n; i++) {
		size_t c = vf_choose(NTOK); const char *t = tok[c].t; char any = 0;
		for (; *t; t++) { char ch = *t; if (ch == 1) { ch = any = (char)vf_u8(); vf_assume((ch != 0) & (ch != ' ') & (ch != '\t') & (ch != ',') & (ch != ':')); } text[k++] = ch; }
		if (tok[c].var >= 0) v[tok[c].var] = tok[c].val; else if (tok[c].var < -1 && (any == '0' || any == '1')) v[tok[c].var == -2] = any - '0';
		text[k++] = sep[vf_choose(4)];
	}
	text[k] = 0; envtext = set ? text : NULL;
	char p[] = "p", o[] = "-n=5", *av[] = { p, o, NULL }; size_t l0 = vf_live(); int r = argv_process(tab, n ? 2 : 1, av); vf_observe(r == 0);
	vf_assert((r == 0) == (n == 0 || v[0]), "with attached values or not"); if (r == 0 && n) vf_assert(flag == 5, "the option"); vf_observe((uint64_t)argv_usage_type); settings(v); if (n == TOKS) vf_witness("settings");
	envtext = "close=off,multi=reject,env=none lasttog=on usage=all error=all"; (void)argv_process(tab, 1, av); settings(v); vf_assert(envread == 1, "they are read once");
	argv_cleanup(tab); vf_assert(vf_live() == l0, "nothing is leaked");
}
