// P44: the packet handler of examples/wdns-dump-pcap.c on any captured packet; ODD: those of the known finding
#include "vf.h"
#include <pcap.h>
#include <wdns.h>
#ifndef N
#define N 48
#endif
static const uint8_t *parsed; static size_t parsedLen; static int nparse, nprint, nclear, ndump; static bool good; static const void *dumped; static const void *dumpHdr; static void *dumpTo; static wdns_message_t *pm;
static wdns_res vp_parse(wdns_message_t *m, const uint8_t *p, size_t n) { parsed = p; parsedLen = n; nparse++; pm = m; return good ? wdns_res_success : wdns_res_parse_error; }
static void vp_print(FILE *f, wdns_message_t *m) { vf_assert(m == pm && nclear == 0, "the message parsed is printed"); nprint++; }
static void vp_clear(wdns_message_t *m) { vf_assert(m == pm, "the message parsed is cleared"); nclear++; }
static void vp_dump(u_char *d, const struct pcap_pkthdr *h, const u_char *p) { dumpTo = d; dumpHdr = h; dumped = p; ndump++; }
#define wdns_parse_message vp_parse
#define wdns_print_message vp_print
#define wdns_clear_message vp_clear
#define pcap_dump vp_dump
static pcap_t *vp_open(const char *f, char *e) { return 0; } static pcap_dumper_t *vp_dopen(pcap_t *p, const char *f) { return 0; } static int vp_i(void) { return 0; }
#define pcap_open_offline vp_open
#define pcap_dump_open vp_dopen
#define pcap_perror(...) vp_i()
#define pcap_compile(...) vp_i()
#define pcap_close(...) vp_i()
#define pcap_dump_close(...) vp_i()
#define pcap_setfilter(...) vp_i()
#define pcap_freecode(...) vp_i()
#define pcap_loop(...) vp_i()
#define main vp_main
#include "examples/wdns-dump-pcap.c"
#undef main
void vf_main(void) {
	size_t n = vf_choose(N + 1); uint8_t *b = vf_buf(n); good = vf_choose(2);
	struct pcap_pkthdr h; memset(&h, 0, sizeof h); h.caplen = n; h.len = vf_u16(); vf_assume(h.len >= n); int k = 0;
	int odd = 0; if (n >= 14) if (b[12] == 8) if (b[13] == 0) { if (n < 18) odd = 1; else { unsigned hl = (b[14] & 15) * 4, ip = b[16] << 8 | b[17]; odd = hl < 20 ? 2 : ip < hl ? 3 : 0; } }
	vf_assume(odd == ODD);          // an IP header cut short (1), or with impossible lengths (2, 3): apart
	uint64_t c0 = count, d0 = count_dump;
	packet_handler((u_char *)&k, &h, b);
	vf_assert(count == c0 + 1, "every packet is counted");
	// what the layers say
	int want = -1; size_t len = 0, off = 0;          // -1: passed over
	if (n >= 34) if (b[12] == 8) if (b[13] == 0) {
		unsigned hl = (b[14] & 15) * 4, ip = b[16] << 8 | b[17]; off = 14 + hl; len = n - 14;
		if (ip < len) len = ip;
		hl = vf_concrete(hl); len = vf_concrete(len); off = 14 + hl;
		if (hl >= 20) if (len >= hl + 8 + 12) { want = 1; len -= hl + 8; off += 8; }
	}
	if (want < 0) { vf_assert(nparse == 0 && ndump == 0 && nprint == 0 && count_dump == d0, "what is no IPv4 packet with a message is passed over"); vf_witness("passed over"); }
	else {
		vf_assert(nparse == 1 && parsed == b + off && parsedLen == len, "exactly the octets of the message are parsed");
		if (good) { vf_assert(nprint == 1 && nclear == 1 && ndump == 0 && count_dump == d0, "a good message is printed"); vf_witness("printed"); }
		else { vf_assert(nprint == 0 && nclear == 0 && ndump == 1 && dumped == b && dumpHdr == &h && dumpTo == &k && count_dump == d0 + 1, "the packet of a broken message is dumped"); vf_witness("dumped"); }
	}
	vf_observe(nparse); vf_observe(ndump);
}
