// P47: one or two threads empty a spool directory: every file is handed out once and is never lost, whatever the interleaving and whatever fails
#include "threads.h"
#include <dirent.h>
#include <errno.h>
#include <sys/stat.h>
#include <time.h>
struct spooldir; struct spooldir *spooldir_init(const char *path); void spooldir_destroy(struct spooldir **); char *spooldir_next(struct spooldir *);
enum { GONE, IN, ACTIVE, LOST };                                       // where the content of a file is
enum { PLAIN, DIRECTORY, VANISHING };
static struct { const char *name; int where, kind, handed; bool old; } f[NF]; static int nf, pos, inits, dirs[2], mk, renames, failAt; static char bigdir; static struct dirent de; static int slept;
static const char *base(const char *p, int *dir) {                      // 0: incoming, 1: active
	if (strncmp(p, "/q/incoming/", 12) == 0) { *dir = 0; return p + 12; } if (strncmp(p, "/q/active/", 10) == 0) { *dir = 1; return p + 10; }
	vf_assert(0, "only files of the spool directory are touched"); return 0;
}
static int find(const char *n) { for (int i = 0; i < nf; i++) if (strcmp(f[i].name, n) == 0) return i; vf_assert(0, "only files that are there are touched"); return -1; }
int vp_stat(const char *p, struct stat *s) {
	vf_point(); memset(s, 0, sizeof *s);
	if (!strcmp(p, "/q")) { s->st_mode = S_IFDIR; return 0; } if (!strcmp(p, "/q/incoming") || !strcmp(p, "/q/active")) { if (dirs[p[3] == 'a']) { s->st_mode = S_IFDIR; return 0; } errno = ENOENT; return -1; }
	int d, i = find(base(p, &d)); s->st_mode = S_IFREG; if (d == 1 ? f[i].old || f[i].where == ACTIVE : f[i].where == IN) return 0; errno = ENOENT; return -1;
}
int vp_fstatat(int fd, const char *n, struct stat *s, int flags) { vf_point(); vf_assert(fd == 7, "the directory"); memset(s, 0, sizeof *s); int i = find(n); if (f[i].kind == VANISHING) f[i].where = GONE; if (f[i].where != IN) { errno = ENOENT; return -1; } s->st_mode = f[i].kind == DIRECTORY ? S_IFDIR : S_IFREG; return 0; }
int vp_mkdir(const char *p, mode_t m) { int a = !strcmp(p, "/q/active"); vf_assert(a || !strcmp(p, "/q/incoming"), "only the two directories are made"); vf_assert(!dirs[a], "only what is missing is made"); dirs[a] = 1; mk++; return 0; }
DIR *vp_opendir(const char *p) { vf_assert(!strcmp(p, "/q/incoming") && dirs[0], "the incoming directory is read"); return (DIR *)&bigdir; }
int vp_dirfd(DIR *d) { vf_assert((char *)d == &bigdir, "the directory"); return 7; }
int vp_closedir(DIR *d) { vf_assert((char *)d == &bigdir, "the directory"); bigdir = 1; return 0; }
void vp_rewinddir(DIR *d) { vf_point(); pos = 0; }
struct dirent *vp_readdir(DIR *d) {
	vf_point(); memset(de.d_name, 0, sizeof de.d_name); while (pos < nf && f[pos].where != IN) pos++; if (pos >= nf) return 0; strcpy(de.d_name, f[pos++].name); return &de; }
int vp_rename(const char *a, const char *b) {
	vf_point(); int d, e, i = find(base(a, &d)), j = find(base(b, &e)); vf_assert(d == 0 && e == 1 && i == j, "a file moves from incoming to active under its name");
	if (renames++ == failAt) { errno = EACCES; return -1; }
	if (f[i].where != IN) { errno = ENOENT; return -1; }
	vf_assert(f[i].kind == PLAIN, "only plain files are moved"); vf_assert(f[i].name[0] != '.', "hidden files stay"); f[i].where = ACTIVE; f[i].old = false; return 0;
}
int vp_unlink(const char *p) { vf_point(); int d, i = find(base(p, &d)); vf_assert(d == 1 && f[i].where != ACTIVE, "nothing but an older file of the same name is removed"); f[i].old = false; return 0; }
char *vp_realpath(const char *p, char *r) { vf_assert(!strcmp(p, "q") && !r, "the path given"); return strdup("/q"); }
int vp_usleep(unsigned n) { vf_point(); slept++; return 0; }
// other calls that do the same
int vp_lstat(const char *p, struct stat *s) { return vp_stat(p, s); }
int vp_access(const char *p, int m) { struct stat x; return vp_stat(p, &x); }
int vp_remove(const char *p) { return vp_unlink(p); }
unsigned vp_sleep(unsigned n) { vp_usleep(n); return 0; }
int vp_nanosleep(const struct timespec *a, struct timespec *b) { return vp_usleep(0); }
int vp_renameat(int d, const char *a, int e, const char *b) { return vp_rename(a, b); }
static struct spooldir *s; static int calls, nothing;
static void take(void *a) {
	for (int k = 0; k < CALLS; k++) {
		int here = 0; for (int i = 0; i < nf; i++) here += f[i].where == IN && f[i].kind == PLAIN && f[i].name[0] != '.';
		char *p = spooldir_next(s); calls++;
		if (p) {
			int d, i = find(base(p, &d)); vf_assert(d == 1 && f[i].where == ACTIVE, "what is handed out is in the active directory"); f[i].handed++; vf_assert(f[i].handed == 1, "a file is handed out once"); free(p); vf_witness("handed out"); }
		else { nothing++; if (!PAIR && failAt < 0 && here) vf_assert(pos == 0, "nothing is handed out only at the end of the directory"); }
	}
}
void vf_main(void) {
	static const char *const names[] = { "a", "b.x", ".h", "cc" }; size_t l0 = vf_live();
	nf = (int)vf_choose(NF + 1); for (int i = 0; i < nf; i++) { f[i].name = names[i == 2 ? 2 + vf_choose(2) : i]; f[i].where = IN; f[i].kind = (int)vf_choose(3); f[i].old = vf_choose(2); }
	failAt = (int)vf_choose(3) - 1; dirs[0] = vf_choose(2); dirs[1] = vf_choose(2); int had = dirs[0] + dirs[1];
	s = spooldir_init("q"); vf_assert(s != NULL && dirs[0] && dirs[1] && mk == 2 - had, "both directories are there"); if (mk == 2) vf_witness("made");
	vf_shared(s, 80); int t0 = 0, t1 = 1;
#if PAIR
	vf_parallel(take, &t0, take, &t1, PRE); if (vf_switched == PRE) vf_witness("preempted");
#else
	take(&t0);
#endif
	int want = 0, got = 0; for (int i = 0; i < nf; i++) {
		bool plain = f[i].kind == PLAIN && f[i].name[0] != '.'; want += plain; got += f[i].handed;
		vf_assert(f[i].handed == (f[i].where == ACTIVE), "a file moved is handed out"); if (!plain) vf_assert(!f[i].handed, "only plain files that are not hidden"); if (f[i].kind != VANISHING) vf_assert(f[i].where == IN || f[i].where == ACTIVE, "nothing is lost"); }
	failAt = -1; pos = pos; for (int k = 0; k < NF + 2; k++) { char *p = spooldir_next(s); if (p) { int d, i = find(base(p, &d)); vf_assert(f[i].where == ACTIVE && f[i].handed++ == 0, "a file is handed out once"); got++; free(p); } }
	vf_assert(got == want, "every file is handed out in the end"); vf_observe(want); vf_observe(nothing);
	spooldir_destroy(&s); vf_assert(s == NULL && bigdir == 1, "closed"); vf_assert(vf_live() == l0, "nothing is leaked"); spooldir_destroy(&s);
}
