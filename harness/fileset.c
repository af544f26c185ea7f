// P46: the files loaded are those listed and present, each loaded and unloaded once, over a history of reloads
#include "vf.h"
#include <sys/stat.h>
#include <libgen.h>
#include <unistd.h>
static int vp_stat(const char *p, struct stat *s);
static int vp_access(const char *p);
#define stat(p, s) vp_stat(p, s)
#define lstat(p, s) vp_stat(p, s)
#define access(p, m) vp_access(p)
#include "libmy/my_fileset.c"
#undef lstat
#undef access
#undef stat
#ifndef NF
#define NF 3                                             // names a, b, c
#endif
#define MAXO 24
static struct obj { char name; bool live; } ob[MAXO]; static int no, nload, nunload; static unsigned present; static bool setThere; static unsigned ino, mtime; static int user; static struct my_fileset *fs;
static int vp_stat(const char *p, struct stat *s) {
	memset(s, 0, sizeof *s);
	if (strcmp(p, "d/s") == 0) { if (!setThere) { errno = 2; return -1; } s->st_ino = ino; s->st_mtime = mtime; return 0; }
	vf_assert(p[0] == 'd' && p[1] == '/' && p[2] && !p[3], "only listed files are looked at"); vf_assert(p[2] >= 'a' && p[2] < 'a' + NF, "only listed files are looked at");
	unsigned c = vf_concrete(p[2] - 'a'); if (present >> c & 1) return 0; errno = 2; return -1;
}
static int vp_access(const char *p) { struct stat s; return vp_stat(p, &s); }
static void *load(struct my_fileset *f, const char *p) {
	vf_assert(f == fs && my_fileset_user(f) == &user, "the set is handed over"); vf_assert(p[0] == 'd' && p[1] == '/' && p[2] && !p[3], "only listed files are loaded");
	vf_assert(no < MAXO, "objects"); ob[no].name = p[2]; ob[no].live = true; nload++; return &ob[no++];
}
static void unload(struct my_fileset *f, const char *p, void *o) {
	vf_assert(f == fs, "the set is handed over"); struct obj *x = o; vf_assert(x >= ob && x < ob + no, "what was loaded is unloaded"); vf_assert(x->live, "nothing is unloaded twice"); vf_assert(p[2] == x->name && !p[3], "what is unloaded is named");
	x->live = false; nunload++;
}
static int entries(char *names, void **ptrs) {
	int n = 0; const char *f; void *p; while (my_fileset_get(fs, n, &f, &p)) { vf_assert(n < MAXO, "entries"); names[n] = f[2]; vf_assert(f[0] == 'd' && f[1] == '/' && f[2] && !f[3], "named in full"); ptrs[n] = p; vf_assert(((struct obj *)p)->live && ((struct obj *)p)->name == f[2], "every entry is a loaded file"); n++; } 
	vf_assert(!my_fileset_get(fs, n + 1, &f, &p) && !my_fileset_get(fs, (size_t)-1, &f, &p), "nothing beyond the entries");
	return n;
}
void vf_main(void) {
	size_t l0 = vf_live(); setThere = true; ino = 5; mtime = 100; fs = my_fileset_init("d/s", load, unload, &user);
	vf_assert(fs != NULL, "made"); char on[MAXO], nn[MAXO]; void *op[MAXO], *np[MAXO]; int k = entries(on, op); vf_assert(k == 0 && nload == 0, "nothing is loaded yet"); bool fresh = true;
	for (int r = 0; r < RELOADS; r++) {
		char text[2 * LINES + 1]; int n = (int)vf_choose(LINES + 1); for (int i = 0; i < n; i++) { text[2 * i] = vf_u8(); vf_assume(text[2 * i] >= 'a'); vf_assume(text[2 * i] < 'a' + NF); text[2 * i + 1] = '\n'; }
		size_t tn = 2 * n; if (n) tn -= vf_choose(2); present = vf_choose(1 << NF);
		unsigned how = vf_choose(5);                        // 0: unchanged; 1: new time; 2: new file; 3: gone; 4: cannot be opened
		if (how == 1 || how == 4) mtime++; if (how == 2) ino++; setThere = how != 3; vf_set_file(how == 4 ? NULL : text, tn);
		int k0 = entries(on, op), a0 = nload, b0 = nunload; bool live0[MAXO]; for (int i = 0; i < no; i++) live0[i] = ob[i].live; int no0 = no;
		my_fileset_reload(fs);
		int k1 = entries(nn, np); bool done = how == 1 || how == 2 || (how == 0 && fresh);
		if (!done) {
			vf_assert(nload == a0 && nunload == b0 && k0 == k1, "nothing is done unless the set file changed and can be read"); for (int i = 0; i < k0; i++) vf_assert(on[i] == nn[i] && op[i] == np[i], "nothing is done unless the set file changed"); if (how == 4) fresh = true; vf_witness("nothing done"); continue;
		}
		fresh = false;
		for (int i = 0; i + 1 < k1; i++) vf_assert(nn[i] < nn[i + 1], "in order of names, each once");
		for (int c = 0; c < NF; c++) {
			unsigned listed = 0, now = 0, before = 0, kept = 0; for (int i = 0; i < n; i++) listed |= text[2 * i] == 'a' + c; listed &= present >> c & 1;
			for (int i = 0; i < k1; i++) now |= nn[i] == 'a' + c; for (int i = 0; i < k0; i++) before |= on[i] == 'a' + c; for (int i = 0; i < no0; i++) kept |= (ob[i].name == 'a' + c) & ob[i].live & live0[i];
			vf_assert(listed == now, "exactly the files listed that are there"); vf_assert(!(before & now) | kept, "a file that is loaded stays loaded"); unsigned extra = 0; for (int i = no0; i < no; i++) extra |= ob[i].name == 'a' + c; vf_assert(!(before & extra), "a file that is loaded is not loaded again"); if (kept) vf_witness("kept");
		}
		for (int j = 0; j < no; j++) { unsigned used = 0; for (int i = 0; i < k1; i++) used |= np[i] == &ob[j]; vf_assert(used == ob[j].live, "what no entry needs is unloaded"); if (j < no0 && live0[j] && !ob[j].live) vf_witness("unloaded"); }
		vf_observe(k1 * 16 + nload);
	}
	my_fileset_destroy(&fs); vf_assert(fs == NULL, "gone"); for (int j = 0; j < no; j++) vf_assert(!ob[j].live, "everything is unloaded in the end"); vf_assert(nload == nunload, "once each"); vf_assert(vf_live() == l0, "nothing is leaked"); my_fileset_destroy(&fs);
}
