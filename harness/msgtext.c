// Messages, sections, RRsets and records as text, compared with a direct rendering of the structure.
#include "edtext.h"
static const uint32_t nums[] = { 0, 1, 9, 10, 99, 100, 65535, 65536, 4294967295u, 86400, 2147483648u };
static void oclass(unsigned c) { const char *s = wdns_rrclass_to_str((uint16_t)c); oc(' '); if (s) os(s); else { os("CLASS"); odec(c); } }	// the names: property P26
static void orr(const wdns_rr_t *r, unsigned sec) {
	if (sec == 0) oc(';');
	oname(r->name.data, r->name.len); if (sec) { oc(' '); odec(r->rrttl); } oclass(r->rrclass); oc(' '); otype(r->rrtype);
	if (sec) { char *s = wdns_rdata_to_str(r->rdata->data, r->rdata->len, r->rrtype, r->rrclass); oc(' '); os(s); free(s); }	// the data: properties P21 to P25
	oc('\n');
}
static void omsg(const wdns_message_t *m) {
	unsigned op = m->flags >> 11 & 15; const char *s;
	os(";; ->>HEADER<<- opcode: "); if ((s = wdns_opcode_to_str((uint16_t)op))) os(s); else odec(op);	// the names: property P27
	os(", rcode: "); if ((s = wdns_rcode_to_str(m->rcode))) os(s); else odec(m->rcode);
	os(", id: "); odec(m->id); os("\n;; flags:");
	static const char *const fl[] = { " qr", " aa", " tc", " rd", " ra", 0, " ad", " cd" }; static const uint8_t at[] = { 15, 10, 9, 8, 7, 6, 5, 4 };
	for (int i = 0; i < 8; i++) if (fl[i] && (m->flags >> at[i] & 1)) os(fl[i]);
	static const char *const cn[] = { "; QUERY: ", ", ANSWER: ", ", AUTHORITY: ", ", ADDITIONAL: " };
	for (int i = 0; i < 4; i++) { os(cn[i]); odec(m->sections[i].n_rrs); } oc('\n');
	if (m->edns.present) {
		os("\n;; OPT PSEUDOSECTION:\n; EDNS: version: "); odec(m->edns.version); os(", flags:"); if (m->edns.flags & 0x8000) os(" do"); os("; udp: "); odec(m->edns.size);
		if (m->edns.options && m->edns.options->len) {	// the options: property P32
			char *t = wdns_rdata_to_str(m->edns.options->data, m->edns.options->len, 41, 1); os("\n; "); for (size_t i = 0; t[i]; i++) { oc(t[i]); if (t[i] == '\n') os("; "); } free(t); }
	}
	static const char *const sn[] = { "QUESTION", "ANSWER", "AUTHORITY", "ADDITIONAL" };
	for (unsigned i = 0; i < 4; i++) { os("\n;; "); os(sn[i]); os(" SECTION:\n"); for (unsigned k = 0; k < m->sections[i].n_rrs; k++) orr(&m->sections[i].rrs[k], i); }
}
// spaces at the end of a line mean nothing
static size_t strip(char *p, size_t n) { size_t k = 0; for (size_t i = 0; i < n; i++) { if (p[i] == '\n') while (k && p[k - 1] == ' ') k--; p[k++] = p[i]; } return k; }
static void same(char *s, const char *what) {
	vf_assert(s != 0, what); size_t n = strlen(s); vf_observe_bytes(s, n); n = strip(s, n); on = strip(o, on);
	vf_assert(n == on, what); vf_assert(memcmp(s, o, n) == 0, what); free(s);
}
static wdns_rdata_t *rdata(const void *p, size_t n) { wdns_rdata_t *r = malloc(sizeof *r + n); r->len = (uint16_t)n; if (n) memcpy(r->data, p, n); return r; }
// a record: little of it is arbitrary at a time
static void record(wdns_rr_t *r, unsigned sec, int rich) {
	memset(r, 0, sizeof *r); uint8_t nm[8]; unsigned v = rich ? (unsigned)vf_choose(3) : 3; size_t n = 0, k = v == 0 ? vf_choose(3) : 1;
	if (k) { nm[n++] = 1; nm[n++] = 'n'; } if (k == 2) { nm[n++] = 2; nm[n++] = vf_u8(); nm[n++] = '.'; } nm[n++] = 0;
	r->name.len = (uint8_t)n; r->name.data = vf_dup(nm, n);
	r->rrttl = v == 1 ? nums[vf_choose(11)] : v == 0 && k == 0 ? vf_u8() : 5;
	static const uint16_t ts[] = { 16, 1, 300, 2, 65535, 99, 41, 46, 0 }, cs[] = { 1, 3, 255, 0, 7, 65535 };
	r->rrtype = ts[vf_choose(v == 2 ? 9 : 3)]; r->rrclass = cs[v == 2 ? vf_choose(6) : 0];
	if (sec == 0) { if (vf_choose(2)) r->rdata = rdata("x", 1); return; }
	switch (vf_choose(rich ? 4 : 3)) {
	case 0: r->rdata = rdata("", 0); break;
	case 1: { uint8_t t[2] = { 1, rich ? vf_u8() : 'v' }; r->rdata = rdata(t, 2); break; }
	case 2: r->rdata = rdata("\300\000\002\001", 4); break;
	case 3: r->rdata = rdata("\001x\001y", 3 + vf_choose(2)); break;
	}
}
static void drop(wdns_rr_t *r) { free(r->name.data); free(r->rdata); }
void vf_main(void) {
	size_t live = vf_live(); o = malloc(6000); on = 0;
#if MODE == 0		// the header and the OPT pseudosection
	wdns_message_t m; memset(&m, 0, sizeof m);
	static const uint16_t ids[] = { 0, 9, 10, 999, 10000, 65535 };
	switch (vf_choose(4)) {
	case 0: m.flags = vf_u16(); m.id = 1; break;		// every flag, one by one and together
	case 1: m.rcode = (uint16_t)(vf_choose(2) << 4 | vf_choose(16)); m.flags = 0x8000; break;
	case 2: m.rcode = ids[vf_choose(6)]; m.id = vf_choose(2) ? ids[vf_choose(6)] : vf_u8(); break;
	case 3: m.edns.present = true; m.edns.flags = (uint16_t)(vf_u8() << 8 | (vf_choose(2) ? 255 : 0)); m.edns.version = vf_choose(2) ? vf_u8() : 0; m.edns.size = vf_choose(2) ? ids[vf_choose(6)] : vf_u8();
		if (vf_choose(2)) { uint8_t d[] = { 0, 3, 0, 1, vf_u8(), 0, 15, 0, 3, 0, 99, vf_u8() }; static const uint8_t l[] = { 0, 5, 12 }; m.edns.options = rdata(d, l[vf_choose(3)]); m.edns.flags = 0; m.edns.version = 0; m.edns.size = 512; } break;
	}
	omsg(&m); same(wdns_message_to_str(&m), "the text of the message"); if (m.edns.present) vf_witness("edns"); vf_witness("header");
	if (vf_choose(2)) { FILE *f = vf_mem_file(); wdns_print_message(f, &m); same(vf_mem_done(f), "what is printed"); }
	free(m.edns.options);
#elif MODE == 1		// records in sections
	wdns_message_t m; memset(&m, 0, sizeof m); m.flags = 0x8180; m.id = 4660; wdns_rr_t a[4][3]; unsigned how = (unsigned)vf_choose(4), tot = 0;
	for (unsigned s = 0; s < 4; s++) { unsigned n = how == s ? (unsigned)vf_choose(4) : (unsigned)vf_choose(2); if (tot + n > 3) n = 0; tot += n; m.sections[s].n_rrs = (uint16_t)n; m.sections[s].rrs = n ? a[s] : 0; for (unsigned k = 0; k < n; k++) record(&a[s][k], s, 0); }
	omsg(&m); same(wdns_message_to_str(&m), "the text of the message");
	for (unsigned s = 0; s < 4; s++) for (unsigned k = 0; k < m.sections[s].n_rrs; k++) drop(&a[s][k]);
	if (tot == 3) vf_witness("three"); if (tot == 0) vf_witness("empty");
#elif MODE == 2		// a record, a section of it, an RRset
	unsigned sec = (unsigned)vf_choose(4); wdns_rr_t r[2]; record(&r[0], sec, 1); int pr = r[0].rrtype == 16 && (int)vf_choose(2);
	switch (vf_choose(3)) {
	case 0: orr(r, sec); if (pr) { FILE *f = vf_mem_file(); wdns_print_rr(f, r, sec); same(vf_mem_done(f), "what is printed"); } else same(wdns_rr_to_str(r, sec), "the text of the record"); vf_witness("record"); break;
	case 1: { record(&r[1], sec, 0); wdns_rrset_array_t a; memset(&a, 0, sizeof a); a.n_rrs = (uint16_t)vf_choose(3); a.rrs = a.n_rrs ? r : 0; for (unsigned k = 0; k < a.n_rrs; k++) orr(&r[k], sec);
		if (pr) { FILE *f = vf_mem_file(); wdns_print_rrset_array(f, &a, sec); same(vf_mem_done(f), "what is printed"); } else same(wdns_rrset_array_to_str(&a, sec), "the text of the section"); drop(&r[1]); vf_witness("section"); break; }
	case 2: { wdns_rrset_t s; memset(&s, 0, sizeof s); s.name = r[0].name; s.rrtype = r[0].rrtype; s.rrclass = r[0].rrclass; s.rrttl = r[0].rrttl; wdns_rdata_t *d[3]; unsigned n = (unsigned)vf_choose(sec ? 4 : 2);
		for (unsigned k = 0; k < n; k++) d[k] = k == 0 && r[0].rdata ? r[0].rdata : rdata("\001z\001w", k + 1);
		s.n_rdatas = (uint16_t)n; s.rdatas = n ? d : 0;
		if (sec) for (unsigned k = 0; k < n; k++) { wdns_rr_t t = r[0]; t.rdata = d[k]; orr(&t, sec); } else { wdns_rr_t t = r[0]; t.rdata = 0; orr(&t, 0); }
		if (pr) { FILE *f = vf_mem_file(); wdns_print_rrset(f, &s, sec); same(vf_mem_done(f), "what is printed"); } else same(wdns_rrset_to_str(&s, sec), "the text of the RRset");
		for (unsigned k = 0; k < n; k++) if (d[k] != r[0].rdata) free(d[k]); if (!sec && !n) vf_witness("question set"); if (n == 3) vf_witness("three"); break; }
	}
	drop(&r[0]);
#else			// a message that was parsed
	static const uint8_t base[] = { 18,52, 129,128, 0,1, 0,2, 0,1, 0,1,  3,'w','w','w',0, 0,1,0,1,  192,12,0,1,0,1,0,0,0,60,0,4,192,0,2,1,  192,12,0,16,0,1,0,0,0,60,0,3,2,'h','i',  0,0,2,0,1,0,0,1,0,0,2,192,12,  0,0,41,4,208,0,0,128,0,0,8,0,3,0,4,'a',';','"',7 };
	size_t n = sizeof base, k = vf_choose(n); uint8_t *p = vf_dup(base, n); p[k] = (uint8_t)vf_concrete(vf_u8());
	wdns_message_t m; if (wdns_parse_message(&m, p, n) == wdns_res_success) { omsg(&m); same(wdns_message_to_str(&m), "the text of the message"); wdns_clear_message(&m); vf_witness("parsed"); } else vf_witness("rejected");
	free(p);
#endif
	free(o); vf_assert(vf_live() == live, "nothing is leaked");
}
