// Mnemonics of types, classes, rcodes, opcodes, results.  The tables are those of the IANA registries and of the documented header.
#include "vf.h"
#include "wdns.h"
struct nm { unsigned v; const char *s; };
static const struct nm types[] = { {1,"A"},{2,"NS"},{3,"MD"},{4,"MF"},{5,"CNAME"},{6,"SOA"},{7,"MB"},{8,"MG"},{9,"MR"},{10,"NULL"},{11,"WKS"},{12,"PTR"},{13,"HINFO"},{14,"MINFO"},
	{15,"MX"},{16,"TXT"},{17,"RP"},{18,"AFSDB"},{19,"X25"},{20,"ISDN"},{21,"RT"},{22,"NSAP"},{23,"NSAP-PTR"},{24,"SIG"},{25,"KEY"},{26,"PX"},{27,"GPOS"},{28,"AAAA"},{29,"LOC"},
	{30,"NXT"},{31,"EID"},{32,"NIMLOC"},{33,"SRV"},{34,"ATMA"},{35,"NAPTR"},{36,"KX"},{37,"CERT"},{38,"A6"},{39,"DNAME"},{40,"SINK"},{41,"OPT"},{42,"APL"},{43,"DS"},{44,"SSHFP"},
	{45,"IPSECKEY"},{46,"RRSIG"},{47,"NSEC"},{48,"DNSKEY"},{49,"DHCID"},{50,"NSEC3"},{51,"NSEC3PARAM"},{52,"TLSA"},{55,"HIP"},{56,"NINFO"},{57,"RKEY"},{58,"TALINK"},{59,"CDS"},
	{60,"CDNSKEY"},{61,"OPENPGPKEY"},{62,"CSYNC"},{64,"SVCB"},{65,"HTTPS"},{99,"SPF"},{100,"UINFO"},{101,"UID"},{102,"GID"},{103,"UNSPEC"},{104,"NID"},{105,"L32"},{106,"L64"},
	{107,"LP"},{108,"EUI48"},{109,"EUI64"},{249,"TKEY"},{250,"TSIG"},{251,"IXFR"},{252,"AXFR"},{253,"MAILB"},{254,"MAILA"},{255,"ANY"},{256,"URI"},{257,"CAA"},{32768,"TA"},{32769,"DLV"} };
static const struct nm classes[] = { {1,"IN"},{3,"CH"},{4,"HS"},{254,"NONE"},{255,"ANY"} };
static const struct nm rcodes[] = { {0,"NOERROR"},{1,"FORMERR"},{2,"SERVFAIL"},{3,"NXDOMAIN"},{4,"NOTIMP"},{5,"REFUSED"},{6,"YXDOMAIN"},{7,"YXRRSET"},{8,"NXRRSET"},{9,"NOTAUTH"},{10,"NOTZONE"},{16,"BADVERS"} };
static const struct nm opcodes[] = { {0,"QUERY"},{1,"IQUERY"},{2,"STATUS"},{4,"NOTIFY"},{5,"UPDATE"} };
#define NEL(a) (sizeof(a) / sizeof *(a))
#if KIND == 0
#define T types
#define GEN "TYPE"
#define TOSTR(v) wdns_rrtype_to_str((uint16_t)(v))
static int parse(const char *s, unsigned *v) { *v = wdns_str_to_rrtype(s); return *v != 0; }
#elif KIND == 1
#define T classes
#define GEN "CLASS"
#define TOSTR(v) wdns_rrclass_to_str((uint16_t)(v))
static int parse(const char *s, unsigned *v) { *v = wdns_str_to_rrclass(s); return *v != 0; }
#else
#define T rcodes
#define GEN ((const char *)0)
#define TOSTR(v) wdns_rcode_to_str((uint16_t)(v))
static int parse(const char *s, unsigned *v) { uint16_t o = 0x5555; wdns_res r = wdns_str_to_rcode(s, &o); *v = o; if (r != wdns_res_success) vf_assert(o == 0x5555, "a refused text leaves the result alone"); return r == wdns_res_success; }
#endif
// A text of n characters denotes the number of the mnemonic it spells in any case, or the number (not 0, which is what the functions
// return for a failure) in the generic form.  No branch depends on a character.
static void text(const char *s, size_t n) {
	unsigned v; int ok = parse(s, &v); vf_observe(ok); vf_observe(v);
	unsigned char u[128]; unsigned any = 0, right = 0;
	for (size_t i = 0; i < n; i++) { unsigned char c = (unsigned char)s[i]; u[i] = (unsigned char)(c - (unsigned char)(((c >= 'a') & (c <= 'z')) << 5)); }
	if (GEN && n > strlen(GEN)) {
		size_t k = 0; unsigned is = 1; for (; GEN[k]; k++) is &= u[k] == GEN[k];
		uint64_t x = 0, big = 0; for (; k < n; k++) { is &= (s[k] >= '0') & (s[k] <= '9'); x = (x & 0xfffff) * 10 + (uint64_t)(s[k] - '0'); big |= x > 65535; }
		is &= (x != 0) & !big; any |= is; right |= is & (v == x);
	}
	for (size_t i = 0; i < NEL(T); i++) if (strlen(T[i].s) == n) {
		unsigned is = 1; for (size_t k = 0; k < n; k++) is &= u[k] == T[i].s[k];
		any |= is; right |= is & (v == T[i].v);
	}
	if (ok) { vf_assert(right, "what is accepted is a mnemonic or the generic form, and gives its number"); vf_witness("known"); }
	else { vf_assert(!any, "what is rejected is neither a mnemonic nor the generic form of a number"); vf_witness("unknown"); }
}
void vf_main(void) {
#if MODE == 0		// every number to its name and back, in any mixture of cases
	unsigned v = vf_u16(); const char *s = TOSTR(v), *w = 0; size_t at = 0;
	for (size_t i = 0; i < NEL(T); i++) if (v == T[i].v) { w = T[i].s; at = i; }
	vf_assert((s != 0) == (w != 0), "exactly the known numbers have a name");
	if (s && w) {
		vf_assert(strcmp(s, w) == 0, "the name of the number"); vf_observe_bytes(s, strlen(s));
		size_t n = strlen(s); char *t = malloc(n + 1); for (size_t i = 0; i <= n; i++) { t[i] = s[i]; if (s[i] >= 'A' && s[i] <= 'Z') t[i] |= (vf_u8() & 1) << 5; }
		unsigned b; vf_assert(parse(t, &b) && b == T[at].v, "the name leads back to the number"); vf_witness("known");
	} else vf_witness("unknown");
#elif MODE == 1		// every text
	size_t n = vf_choose(N + 1); char *s = malloc(n + 1); for (size_t i = 0; i < n; i++) { s[i] = (char)vf_u8(); vf_assume(s[i] != 0); } s[n] = 0;
	text(s, n);
#elif MODE == 2		// the generic form followed by any text
	size_t g = strlen(GEN), n = vf_choose(N + 1); char *s = malloc(g + n + 1); for (size_t i = 0; i < g; i++) { s[i] = GEN[i]; if (i == 1) s[i] |= (vf_u8() & 1) << 5; }
	for (size_t i = g; i < g + n; i++) { s[i] = (char)vf_u8(); vf_assume(s[i] != 0); } s[g + n] = 0;
	text(s, g + n);
#elif MODE == 6		// the generic form with many digits
	static const char *const di[] = { "1", "65", "429496729", "1844674407370955161", "922337203685477580", "6553", "999999999999999999999", "0" }; size_t g = strlen(GEN), z = vf_choose(26), d = vf_choose(9), n; const char *t = d < 8 ? di[d] : ""; char *s = malloc(g + 80), *q = s; memcpy(q, GEN, g); q += g; memset(q, '0', z); q += z; strcpy(q, t); q += strlen(t);
	for (int i = 0; i < 2; i++) { *q = (char)vf_u8(); vf_assume(*q != 0); q++; } *q = 0; n = (size_t)(q - s); text(vf_dup(s, n + 1), n);
#elif MODE == 3		// every mnemonic with one character replaced, removed or added
	const char *w = T[vf_choose(NEL(T))].s; size_t n = strlen(w), at = vf_choose(n + 1), how = vf_choose(3); char *s = malloc(n + 3), *d = s;
	for (size_t i = 0; i <= n; i++) {
		if (i == at) { if (how < 2) { *d = (char)vf_u8(); vf_assume(*d != 0); d++; } if (how != 1) continue; }
		*d++ = w[i];
	}
	*d = 0; n = (size_t)(d - s); while (n && !s[n - 1]) n--;
	text(vf_dup(s, n + 1), n);
#elif MODE == 4		// operation, response and result codes
	unsigned v = vf_u16(); const char *s = wdns_opcode_to_str((uint16_t)v), *w = 0;
	for (size_t i = 0; i < NEL(opcodes); i++) if (v == opcodes[i].v) w = opcodes[i].s;
	vf_assert((s != 0) == (w != 0) && (!s || strcmp(s, w) == 0), "opcode name");
	s = wdns_rcode_to_str((uint16_t)v); w = 0; for (size_t i = 0; i < NEL(rcodes); i++) if (v == rcodes[i].v) w = rcodes[i].s;
	vf_assert((s != 0) == (w != 0) && (!s || strcmp(s, w) == 0), "rcode name");
	if (s) vf_witness("known"); else vf_witness("unknown");
#elif MODE == 5		// result codes: two different ones
	static const struct { wdns_res r; const char *s; } R[] = { {wdns_res_success,"success"},{wdns_res_failure,"failure"},{wdns_res_invalid_compression_pointer,"invalid compression pointer"},
		{wdns_res_invalid_length_octet,"invalid length octet"},{wdns_res_invalid_opcode,"invalid opcode"},{wdns_res_invalid_rcode,"invalid rcode"},{wdns_res_len,"len"},{wdns_res_malloc,"malloc"},
		{wdns_res_name_len,"name len"},{wdns_res_name_overflow,"name overflow"},{wdns_res_out_of_bounds,"out of bounds"},{wdns_res_overflow,"overflow"},{wdns_res_parse_error,"parse error"},
		{wdns_res_qdcount,"qdcount"},{wdns_res_unknown_opcode,"unknown opcode"},{wdns_res_unknown_rcode,"unknown rcode"} };
	uint32_t v = vf_u32(); const char *s = wdns_res_to_str((wdns_res)v), *w = 0; int k = 0;
	for (size_t i = 0; i < NEL(R); i++) if (v == (uint32_t)R[i].r) { w = R[i].s; k++; }
	vf_assert(k <= 1, "result codes are distinct"); vf_assert((s != 0) == (w != 0), "exactly the result codes have a name");
	if (s && w) { vf_assert(strcmp(s, w) == 0, "result name"); vf_witness("known"); } else vf_witness("unknown");
	// the version as text and as a number
	const char *t = wdns_get_version(); unsigned long n[3] = { 0, 0, 0 }; int f = 0; for (; *t; t++) { if (*t == '.') { f++; vf_assert(f < 3, "three parts"); } else { vf_assert(*t >= '0' && *t <= '9', "digits"); n[f] = n[f] * 10 + (unsigned)(*t - '0'); } }
	vf_assert(f == 2 && wdns_get_version_number() == n[0] * 1000000 + n[1] * 1000 + n[2], "version text and number agree");
	vf_assert(strcmp(wdns_get_version(), WDNS_LIBRARY_VERSION) == 0 && wdns_get_version_number() == WDNS_LIBRARY_VERSION_NUMBER, "version of the header");
#endif
}
