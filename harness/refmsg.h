// An independent, direct reading of the DNS message format (RFC 1035 4.1, the RFC of each record type, RFC 6891),
// with which the library's parser is compared.  Positions are offsets into the packet.
#ifndef REFMSG_H
#define REFMSG_H
#include "names.h"
#include "wdns.h"
// record types: N name  1 2 4 6 8 G octets  S character-string  R character-strings  P A6 prefix  T type bitmap  V SvcParams  B the rest
struct ref_desc { uint16_t type; uint8_t in_only; const char *f; };
static const struct ref_desc ref_descs[] = {
	{1,1,"4"},{2,0,"N"},{3,0,"N"},{4,0,"N"},{5,0,"N"},{6,0,"NN44444"},{7,0,"N"},{8,0,"N"},{9,0,"N"},{10,0,"B"},{11,1,"41B"},{12,0,"N"},
	{13,0,"SS"},{14,0,"NN"},{15,0,"2N"},{16,0,"R"},{17,0,"NN"},{18,0,"2N"},{19,0,"S"},{20,0,"SS"},{21,0,"2N"},{24,0,"2114442NB"},
	{26,1,"2NN"},{28,1,"G"},{30,0,"NB"},{33,1,"222N"},{35,1,"22SSSN"},{36,1,"2N"},{38,1,"PN"},{39,0,"N"},{41,0,"B"},{43,0,"211B"},
	{46,0,"2114442NB"},{47,0,"NT"},{48,0,"211B"},{50,0,"112SST"},{51,0,"112S"},{52,0,"111B"},{59,0,"211B"},{60,0,"211B"},{61,0,"B"},
	{62,0,"42T"},{64,1,"2NV"},{65,1,"2NV"},{99,0,"R"},{108,0,"6"},{109,0,"8"},{256,0,"22B"},{257,1,"1SB"} };
static inline const char *ref_fields(uint16_t type, uint16_t cls) {
	for (size_t i = 0; i < sizeof ref_descs / sizeof *ref_descs; i++)
		if (ref_descs[i].type == type) return ref_descs[i].in_only && cls != 1 ? "B" : ref_descs[i].f;
	return "B";
}
// expands the name at off: octets used in the packet (0: not a name), *n its expanded length
static inline size_t ref_expand(const uint8_t *p, size_t len, size_t off, uint8_t *out, size_t *n) {
	size_t pos = off, used = 0; *n = 0;
	for (;;) {
		if (pos >= len) return 0;
		uint8_t c = p[pos];
		if (c == 0) { if (*n + 1 > 255) return 0; out[(*n)++] = 0; return used ? used : pos + 1 - off; }
		if (c >= 192) {
			if (pos + 1 >= len) return 0;
			size_t to = (size_t)(c & 63) << 8 | p[pos + 1];
			if (to >= pos && !(to == pos + 1 && p[to] == 0)) return 0;
			if (!used) used = pos + 2 - off;
			pos = to; continue;
		}
		if (c > 63 || *n + c + 2 > 255 || pos + 1 + c > len) return 0;
		memcpy(out + *n, p + pos, 1 + c); *n += 1 + c; pos += 1 + c;
	}
}
static inline int ref_svcparam(unsigned key, size_t vl, const uint8_t *v) {
	switch (key) {
	case 0: return vl % 2 == 0;
	case 1: { size_t i = 0; if (!vl) return 0; while (i < vl) i += 1 + v[i]; return i == vl; }
	case 2: return vl == 0;
	case 3: return vl == 2;
	case 4: return vl % 4 == 0;
	case 6: return vl % 16 == 0;
	case 65535: return 0;
	}
	return 1;
}
// rdata at off, r octets: expanded into out; -1 when malformed.  A record may end at a field boundary.
static inline long ref_rdata(const uint8_t *p, size_t len, size_t off, size_t r, uint16_t type, uint16_t cls, uint8_t *out, size_t cap) {
	const char *f = ref_fields(type, cls); size_t n = 0;
#define TAKE(k) do { size_t k_ = (k); if (k_ > r) return -1; if (n < cap) memcpy(out + n, p + off, n + k_ <= cap ? k_ : cap - n); n += k_; off += k_; r -= k_; } while (0)
	for (; *f && r; f++) switch (*f) {
	case 'N': { uint8_t nm[256]; size_t k, u = ref_expand(p, len, off, nm, &k); if (!u || u > r) return -1; if (n < cap) memcpy(out + n, nm, n + k <= cap ? k : cap - n); n += k; off += u; r -= u; break; }
	case '1': TAKE(1); break; case '2': TAKE(2); break; case '4': TAKE(4); break; case '6': TAKE(6); break; case '8': TAKE(8); break; case 'G': TAKE(16); break;
	case 'S': TAKE((size_t)p[off] + 1); break;
	case 'R': while (r) TAKE((size_t)p[off] + 1); break;
	case 'P': { unsigned b = p[off]; if (b > 128) return -1; TAKE(1 + (128 - b + 7) / 8); break; }
	case 'T': while (r >= 2) { unsigned b = p[off + 1]; if (b < 1 || b > 32) return -1; TAKE(2 + b); } break;
	case 'V': while (r) { if (r < 4) return -1; unsigned key = p[off] << 8 | p[off + 1]; size_t vl = (size_t)p[off + 2] << 8 | p[off + 3]; if (4 + vl > r) return -1; if (!ref_svcparam(key, vl, p + off + 4)) return -1; TAKE(4 + vl); } break;
	case 'B': TAKE(r); break;
	}
#undef TAKE
	if (r || n > 65535) return -1;
	return (long)n;
}
#ifndef REF_MAXRR
#define REF_MAXRR 6
#endif
#ifndef REF_RDCAP
#define REF_RDCAP 600
#endif
struct ref_rr { uint16_t type, cls; uint32_t ttl; uint8_t name[256]; size_t nlen; uint8_t rdata[REF_RDCAP]; long rdlen; };	// rdlen -1: no rdata (question)
struct ref_msg { uint16_t id, flags, rcode; struct ref_rr rr[4][REF_MAXRR]; unsigned n[4]; int opt; struct ref_rr edns; int over; };
static inline int ref_message(const uint8_t *p, size_t len, struct ref_msg *m) {
	m->n[0] = m->n[1] = m->n[2] = m->n[3] = 0; m->opt = 0; m->over = 0;
	if (len < 12) return 0;
	m->id = (uint16_t)(p[0] << 8 | p[1]); m->flags = (uint16_t)(p[2] << 8 | p[3]); m->rcode = m->flags & 15;
	size_t off = 12;
	for (int s = 0; s < 4; s++) {
		unsigned cnt = (unsigned)p[4 + 2 * s] << 8 | p[5 + 2 * s];
		for (unsigned i = 0; i < cnt; i++) {
			if (off == len) return 1;	// a message cut at a record boundary
			struct ref_rr rr; size_t used = ref_expand(p, len, off, rr.name, &rr.nlen);
			if (!used) return 0;
			off += used;
			if (len - off < (s ? 10 : 4)) return 0;
			rr.type = (uint16_t)(p[off] << 8 | p[off + 1]); rr.cls = (uint16_t)(p[off + 2] << 8 | p[off + 3]); rr.ttl = 0; rr.rdlen = -1; off += 4;
			if (s) {
				rr.ttl = (uint32_t)p[off] << 24 | (uint32_t)p[off + 1] << 16 | (uint32_t)p[off + 2] << 8 | p[off + 3];
				size_t rl = (size_t)p[off + 4] << 8 | p[off + 5]; off += 6;
				if (rl > len - off) return 0;
				rr.rdlen = ref_rdata(p, len, off, rl, rr.type, rr.cls, rr.rdata, sizeof rr.rdata);
				if (rr.rdlen < 0) return 0;
				off += rl;
			}
			if (rr.type == 41 && !m->opt) { m->opt = 1; m->edns = rr; m->rcode |= (uint16_t)((rr.ttl >> 24) << 4); }
			else if (m->n[s] < REF_MAXRR) m->rr[s][m->n[s]++] = rr;
			else { m->over = 1; return 1; }
		}
	}
	return 1;
}
static inline int ref_same_name(const uint8_t *a, const uint8_t *b, size_t n) { int r = 1; for (size_t i = 0; i < n; i++) r &= ref_lower(a[i]) == ref_lower(b[i]); return r; }
// what the library holds equals the reference; CHK selects what is compared
#define CK_HDR 1
#define CK_EDNS 2
#define CK_GRP 4
#define CK_RDATA 8
#define CK_ACCEPT 16
#define CK_LEAK 32
#define CK_SAFE 64
#ifndef CHK
#define CHK 63
#endif
#define CKA(bit, c, m) do { if (CHK & (bit)) vf_assert(c, m); } while (0)
static inline size_t ref_cap(long n) { return (size_t)(n < REF_RDCAP ? n : REF_RDCAP); }
static void ref_compare(const struct ref_msg *w, const wdns_message_t *m) {
	CKA(CK_HDR, m->id == w->id && m->flags == w->flags, "header id and flags");
	CKA(CK_HDR, (m->rcode & 15) == (w->flags & 15), "response code of the header");
	CKA(CK_EDNS, m->rcode == w->rcode, "response code, extended by EDNS");
	CKA(CK_EDNS, m->edns.present == !!w->opt, "EDNS present exactly with an OPT record");
	if (w->opt && m->edns.present) {
		CKA(CK_EDNS, m->edns.size == w->edns.cls, "EDNS payload size"); CKA(CK_EDNS, m->edns.version == ((w->edns.ttl >> 16) & 255), "EDNS version");
		CKA(CK_EDNS, m->edns.flags == (w->edns.ttl & 0xffff), "EDNS flags");
		if (w->edns.rdlen >= 0) { CKA(CK_EDNS, m->edns.options && m->edns.options->len == w->edns.rdlen, "EDNS options length"); CKA(CK_EDNS, memcmp(m->edns.options->data, w->edns.rdata, ref_cap(w->edns.rdlen)) == 0, "EDNS options"); }
	}
	for (int s = 0; s < 4; s++) {
		const wdns_rrset_array_t *a = &m->sections[s];
		CKA(CK_HDR | CK_EDNS, a->n_rrs == w->n[s], "number of records in the section");
		if (CHK & (CK_HDR | CK_RDATA)) for (unsigned i = 0; i < w->n[s] && i < a->n_rrs; i++) {
			const struct ref_rr *x = &w->rr[s][i]; const wdns_rr_t *y = &a->rrs[i];
			CKA(CK_HDR, y->rrtype == x->type && y->rrclass == x->cls, "record type and class"); CKA(CK_HDR, y->rrttl == x->ttl, "record TTL");
			CKA(CK_HDR, y->name.len == x->nlen && memcmp(y->name.data, x->name, x->nlen) == 0, "owner name");
			if (x->rdlen < 0) CKA(CK_HDR, y->rdata == NULL, "a question has no rdata");
			else { CKA(CK_HDR | CK_RDATA, y->rdata && y->rdata->len == x->rdlen, "rdata length"); CKA(CK_HDR | CK_RDATA, memcmp(y->rdata->data, x->rdata, ref_cap(x->rdlen)) == 0, "rdata"); }
		}
		if (!(CHK & CK_GRP)) continue;
		static uint16_t grp[REF_MAXRR]; unsigned ng = 0; static unsigned cnt[REF_MAXRR]; static uint32_t ttl[REF_MAXRR];
		for (unsigned i = 0; i < w->n[s]; i++) {
			const struct ref_rr *x = &w->rr[s][i];
			unsigned g = ng;
			if (s) for (g = 0; g < ng; g++) { // the first record of the group stands for it
				unsigned j = 0; while (grp[j] != g) j++;
				const struct ref_rr *z = &w->rr[s][j];
				if (z->type == x->type && z->cls == x->cls && z->nlen == x->nlen && ref_same_name(z->name, x->name, x->nlen)) break;
			}
			grp[i] = (uint16_t)g;
			if (g == ng) { ttl[g] = x->ttl; cnt[g] = 0; ng++; } else if (x->ttl < ttl[g]) ttl[g] = x->ttl;
			vf_assert(g < a->n_rrsets, "an RRset for the record");
			const wdns_rrset_t *rs = &a->rrsets[g];
			if (cnt[g] == 0) { vf_assert(rs->rrtype == x->type && rs->rrclass == x->cls, "RRset type and class"); vf_assert(rs->name.len == x->nlen && ref_same_name(rs->name.data, x->name, x->nlen), "RRset owner"); }
			if (x->rdlen >= 0) {
				vf_assert(cnt[g] < rs->n_rdatas, "RRset holds the record's rdata");
				vf_assert(rs->rdatas[cnt[g]]->len == x->rdlen && memcmp(rs->rdatas[cnt[g]]->data, x->rdata, ref_cap(x->rdlen)) == 0, "RRset rdata in order");
			}
			cnt[g]++;
		}
		vf_assert(a->n_rrsets == ng, "one RRset per owner, type and class");
		for (unsigned g = 0; g < ng; g++) { vf_assert(a->rrsets[g].n_rdatas == cnt[g] || !s, "nothing else in the RRset"); vf_assert(a->rrsets[g].rrttl == ttl[g], "RRset TTL is the lowest"); }
		if (ng && ng < w->n[s]) vf_witness("grouped"); if (ng > 1) vf_witness("several sets");
	}
}
// every part of the message the library returned can be read and is initialised
static inline void ref_walk(const wdns_message_t *m) {
	vf_observe(m->id); vf_observe(m->flags); vf_observe(m->rcode); vf_observe(m->edns.present);
	if (m->edns.present && m->edns.options) vf_observe_bytes(m->edns.options->data, m->edns.options->len);
	for (int s = 0; s < 4; s++) {
		const wdns_rrset_array_t *a = &m->sections[s];
		for (unsigned i = 0; i < a->n_rrs; i++) { const wdns_rr_t *y = &a->rrs[i]; vf_observe(y->rrtype); vf_observe(y->rrclass); vf_observe(y->rrttl); vf_observe_bytes(y->name.data, y->name.len); if (y->rdata) vf_observe_bytes(y->rdata->data, y->rdata->len); }
		for (unsigned i = 0; i < a->n_rrsets; i++) { const wdns_rrset_t *y = &a->rrsets[i]; vf_observe(y->rrtype); vf_observe(y->rrclass); vf_observe(y->rrttl); vf_observe_bytes(y->name.data, y->name.len); if (s) for (unsigned k = 0; k < y->n_rdatas; k++) vf_observe_bytes(y->rdatas[k]->data, y->rdatas[k]->len); }
	}
}
#endif
