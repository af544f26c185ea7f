// P51: a zone file's records, once each and in order (libmy/zonefile.c over a stand-in for ldns)
#include "vf.h"
#include <ldns/ldns.h>
#include <assert.h>
static FILE *vp_open(const char *n, const char *m); static FILE *vp_popen(const char *c, const char *m); static int vp_close(FILE *f, int pipe); static int vp_eof(FILE *f);
#define fopen(n, m) vp_open(n, m)
#define popen(c, m) vp_popen(c, m)
#define fclose(f) vp_close(f, 0)
#define pclose(f) vp_close(f, 1)
#define feof(f) vp_eof(f)
#include "libmy/zonefile.c"
enum { REC, SOA, EMPTY, TTL, ORIGIN, BAD, KINDS };
static int ev[EVENTS], nev, at; static uint32_t serial; static char zfile; static int opened, closed, isPipe; static bool missing; static const char *name; static bool tail;
static FILE *vp_open(const char *n, const char *m) { vf_assert(strcmp(n, name) == 0 && m[0] == 'r', "the file is opened"); if (missing) return NULL; opened++; return (FILE *)&zfile; }
static FILE *vp_popen(const char *c, const char *m) { vf_assert(strncmp(c, "zcat ", 5) == 0 && strcmp(c + 5, name) == 0 && m[0] == 'r', "the file is decompressed"); if (missing) return NULL; opened++; isPipe = 1; return (FILE *)&zfile; }
static int vp_close(FILE *f, int pipe) { vf_assert(f == (FILE *)&zfile && opened == 1 && !closed && pipe == isPipe, "closed once, as it was opened"); closed++; return 0; }
static int vp_eof(FILE *f) { vf_assert(f == (FILE *)&zfile && opened && !closed, "the open file"); return at >= nev; }
static ldns_rdf *rdf(uint32_t v) { ldns_rdf *r = malloc(sizeof *r); r->v = v; return r; }
void ldns_rdf_deep_free(ldns_rdf *r) { free(r); }
void ldns_rdf_free(ldns_rdf *r) { free(r); }
ldns_rdf *ldns_rdf_clone(const ldns_rdf *r) { vf_assert(r != NULL, "a name"); return rdf(r->v); }
uint32_t ldns_rdf2native_int32(const ldns_rdf *r) { return r->v; }
void ldns_rr_free(ldns_rr *rr) { if (!rr) return; free(rr->owner); free(rr->serial); free(rr); }
ldns_rr_type ldns_rr_get_type(const ldns_rr *rr) { return rr->type; }
ldns_rdf *ldns_rr_owner(const ldns_rr *rr) { return rr->owner; }
ldns_rdf *ldns_rr_rdf(const ldns_rr *rr, size_t n) { vf_assert(rr != NULL, "a record"); return n == 2 ? rr->serial : NULL; }
ldns_status ldns_rr_new_frm_fp_l(ldns_rr **rr, FILE *fp, uint32_t *ttl, ldns_rdf **origin, ldns_rdf **prev, int *line) {
	(void)line; vf_assert(fp == (FILE *)&zfile && opened && !closed, "the open file"); if (at >= nev) return LDNS_STATUS_SYNTAX_ERR;
	int k = ev[at++];
	if (k == EMPTY) return LDNS_STATUS_SYNTAX_EMPTY; if (k == TTL) { *ttl = 60; return LDNS_STATUS_SYNTAX_TTL; } if (k == BAD) return LDNS_STATUS_SYNTAX_ERR;
	if (k == ORIGIN) { free(*origin); *origin = rdf(4); return LDNS_STATUS_SYNTAX_ORIGIN; }
	ldns_rr *r = malloc(sizeof *r); r->type = k == SOA ? LDNS_RR_TYPE_SOA : LDNS_RR_TYPE_A; r->id = at - 1; r->owner = rdf(7 + at); r->serial = rdf(k == SOA ? serial : 1); free(*prev); *prev = rdf(7 + at); *rr = r; return LDNS_STATUS_OK;
}
ldns_status ldns_rr_new_frm_fp(ldns_rr **rr, FILE *fp, uint32_t *ttl, ldns_rdf **origin, ldns_rdf **prev) { return ldns_rr_new_frm_fp_l(rr, fp, ttl, origin, prev, NULL); }
void vf_main(void) {
	static const char *names[] = { "z", "gz", "a.gz", "z.gzx", "/x/.gz" }; unsigned which = (unsigned)vf_choose(5); name = names[which]; bool gz = which == 2 || which == 4;
	missing = vf_choose(2); nev = missing ? 0 : (int)vf_choose(EVENTS + 1); for (int i = 0; i < nev; i++) ev[i] = (int)vf_choose(KINDS); serial = vf_u32();
	size_t l0 = vf_live(); struct zonefile *z = zonefile_init_fname(name);
	int soa = 0; while (soa < nev && (ev[soa] == EMPTY || ev[soa] == TTL || ev[soa] == ORIGIN)) soa++; bool good = !missing && soa < nev && ev[soa] == SOA;
	vf_assert((z != NULL) == good, "a zone starts with its start of authority"); vf_observe(z != NULL);
	if (!z) { vf_witness("refused"); vf_assert(opened == closed, "closed again"); vf_assert(vf_live() == l0, "nothing is leaked"); return; }
	if (!good) return;
	vf_assert(opened == 1 && isPipe == gz, "decompressed if its name ends in .gz");
	unsigned when = (unsigned)vf_choose(3); if (when == 0) { vf_assert(zonefile_get_serial(z) == serial, "the serial number"); } vf_assert(zonefile_get_domain(z)->v == (uint32_t)(8 + soa), "the zone's name"); vf_assert(zonefile_get_count(z) == 1, "the start of authority is counted");
	int i = soa + 1; size_t n = 1; bool first = true, over = false;
	for (int k = 0; k < EVENTS + 1 && !over; k++) {
		ldns_rr *rr = NULL; bool end = false, bad = false; ldns_status s = zonefile_read(z, &rr); int id = -1;
		if (first) id = soa;
		else { while (i < nev && (ev[i] == EMPTY || ev[i] == TTL || ev[i] == ORIGIN)) i++; if (i >= nev) end = true; else if (ev[i] == SOA) { i++; end = true; } else if (ev[i] == BAD) { i++; bad = true; } else { id = i++; n++; } }
		first = false; vf_assert((s != LDNS_STATUS_OK) == bad, "bad lines are reported");
		if (bad) { vf_witness("bad"); } else if (end) { vf_assert(rr == NULL, "the end of the zone"); over = true; vf_witness("end"); } else { vf_assert(rr != NULL && rr->id == id, "every record, in order"); vf_observe(id); ldns_rr_free(rr); }
		vf_assert(zonefile_get_count(z) == n, "records are counted"); if (when == 1) vf_assert(zonefile_get_serial(z) == serial, "the serial number"); vf_assert(zonefile_get_domain(z)->v == (uint32_t)(8 + soa), "the zone's name");
		if (when == 2 && vf_choose(2)) break;
	}
	zonefile_destroy(&z); vf_assert(z == NULL && closed == 1, "closed"); vf_assert(vf_live() == l0, "nothing is leaked"); zonefile_destroy(&z); (void)tail;
}
