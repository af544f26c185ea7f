From 3d80ef8c2766c591f63bc972779508c8f46d7d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 01/51] fix: unpack_name: do not read the octet after the end
 of the packet

A label or a compression octet that ends exactly at eop, and a pointer to
eop itself, made the next length octet be read from beyond the packet.
---
 wdns/unpack_name.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wdns/unpack_name.c b/wdns/unpack_name.c
index 2644d69..ba8ddd0 100644
--- a/wdns/unpack_name.c
+++ b/wdns/unpack_name.c
@@ -45,7 +45,7 @@ wdns_unpack_name(const uint8_t *p, const uint8_t *eop, const uint8_t *src,
 		if (c >= 192) {
 			uint16_t offset;
 
-			if (src > eop)
+			if (src >= eop)
 				return (wdns_res_out_of_bounds);
 
 			/* offset is the lower 14 bits of the 2 octet sequence */
@@ -53,7 +53,7 @@ wdns_unpack_name(const uint8_t *p, const uint8_t *eop, const uint8_t *src,
 
 			cptr = p + offset;
 
-			if (cptr > eop)
+			if (cptr >= eop)
 				return (wdns_res_invalid_compression_pointer);
 
 			if (cptr == src - 1 && (*(src - 1) == 0)) {
@@ -75,7 +75,7 @@ wdns_unpack_name(const uint8_t *p, const uint8_t *eop, const uint8_t *src,
 			total_len += c;
 			if (total_len >= WDNS_MAXLEN_NAME)
 				return (wdns_res_name_overflow);
-			if (src + c > eop)
+			if (src + c >= eop)
 				return (wdns_res_out_of_bounds);
 			memcpy(dst, src, c);
 
-- 
2.43.0


From 2eb52054e09abbbf715dd25769b02fc85c13fc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 02/51] fix: copy_uname: do not read the octet after the end of
 the buffer

A label ending exactly at eop made the next length octet be read from
beyond the buffer.
---
 wdns/copy_uname.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wdns/copy_uname.c b/wdns/copy_uname.c
index 586fc24..9de2ac5 100644
--- a/wdns/copy_uname.c
+++ b/wdns/copy_uname.c
@@ -50,7 +50,7 @@ wdns_copy_uname(const uint8_t *p, const uint8_t *eop, const uint8_t *src,
 			total_len += c;
 			if (total_len >= WDNS_MAXLEN_NAME)
 				return (wdns_res_name_overflow);
-			if (src + c > eop)
+			if (src + c >= eop)
 				return (wdns_res_out_of_bounds);
 			memcpy(dst, src, c);
 
-- 
2.43.0


From ccea2369d8e7728be7844c3bbdf8fd01abc863be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 03/51] fix: skip_name: do not read the octet at the end of the
 data

---
 wdns/skip_name.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wdns/skip_name.c b/wdns/skip_name.c
index 09e5148..d573c98 100644
--- a/wdns/skip_name.c
+++ b/wdns/skip_name.c
@@ -33,7 +33,7 @@ wdns_skip_name(const uint8_t **data, const uint8_t *eod)
 	size_t bytes_skipped;
 	uint8_t c;
 
-	while (src <= eod && (c = *src) != 0) {
+	while (src < eod && (c = *src) != 0) {
 		if (c >= 192) {
 			/* compression pointers occupy two octets */
 			src++;
-- 
2.43.0


From 56099d0857f10db66b966c345de2341e90b69acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 04/51] fix: len_uname: reject a name that is not terminated

When the labels filled the buffer without a root label the remaining
length wrapped around and a length one greater than the buffer was
reported as success; callers subtract it from the buffer's length.
---
 wdns/len_uname.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wdns/len_uname.c b/wdns/len_uname.c
index 30921ef..c0fd620 100644
--- a/wdns/len_uname.c
+++ b/wdns/len_uname.c
@@ -36,8 +36,12 @@ wdns_len_uname(const uint8_t *p, const uint8_t *eop, size_t *sz)
 	if (p >= eop)
 		return (wdns_res_overflow);
 
-	while (len-- != 0) {
+	for (;;) {
 		uint8_t oclen;
+
+		if (len == 0)
+			return (wdns_res_invalid_length_octet);
+		len--;
 		WDNS_BUF_GET8(oclen, p);
 
 		if (oclen > 63 || oclen > len)
-- 
2.43.0


From f06f1e261797df7c9a0bae4bbd017f28b289ffc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 05/51] fix: domain_to_str: do not read past src_len octets

---
 wdns/domain_to_str.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wdns/domain_to_str.c b/wdns/domain_to_str.c
index 3a0e593..53c05c8 100644
--- a/wdns/domain_to_str.c
+++ b/wdns/domain_to_str.c
@@ -33,7 +33,7 @@ wdns_domain_to_str(const uint8_t *src, size_t src_len, char *dst)
 
 	assert(src != NULL);
 
-	oclen = *src;
+	oclen = bytes_remaining > 0 ? *src : 0;
 	while (bytes_remaining > 0 && oclen != 0) {
 		src++;
 		bytes_remaining--;
@@ -55,7 +55,7 @@ wdns_domain_to_str(const uint8_t *src, size_t src_len, char *dst)
 			}
 		}
 		*dst++ = '.';
-		oclen = *src;
+		oclen = bytes_remaining > 0 ? *src : 0;
 	}
 	if (bytes_read == 0)
 		*dst++ = '.';
-- 
2.43.0


From c14889d44392e5c22b8ee9a3c56e3c2212024f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 06/51] fix: count_labels: do not read past the end of the name

A last label that ends at name->len left no room for the root label, yet
the octet after it was read.
---
 wdns/count_labels.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wdns/count_labels.c b/wdns/count_labels.c
index 0b5238a..3a522b1 100644
--- a/wdns/count_labels.c
+++ b/wdns/count_labels.c
@@ -33,11 +33,14 @@ wdns_count_labels(wdns_name_t *name, size_t *nlabels)
 	*nlabels = 0;
 	data = name->data;
 
+	if (name->len == 0)
+		return (wdns_res_name_overflow);
+
 	while ((c = *data++) != 0) {
 		if (c <= 63) {
 			*nlabels += 1;
 			data += c;
-			if (data - name->data > name->len)
+			if (data - name->data >= name->len)
 				return (wdns_res_name_overflow);
 		} else {
 			return (wdns_res_invalid_length_octet);
-- 
2.43.0


From e8a1132d53686414e6cedcdfee833895dd4d9614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 07/51] fix: reverse_name: reject a name that is not terminated

Labels that fill len_name octets leave no room for the root label: the
copy wrote one octet before rev_name and the next length octet was read
from beyond the name.
---
 wdns/reverse_name.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wdns/reverse_name.c b/wdns/reverse_name.c
index fac3019..249d49b 100644
--- a/wdns/reverse_name.c
+++ b/wdns/reverse_name.c
@@ -20,6 +20,9 @@ wdns_reverse_name(const uint8_t *name, size_t len_name, uint8_t *rev_name) {
 	size_t len;
 	size_t total_len = 0;
 
+	if (len_name == 0)
+		return (wdns_res_out_of_bounds);
+
 	p = name;
 	memset(rev_name, 0, len_name);
 	rev_name += len_name - 1;
@@ -27,7 +30,7 @@ wdns_reverse_name(const uint8_t *name, size_t len_name, uint8_t *rev_name) {
 	while ((len = *p) != '\x00') {
 		len += 1;
 		total_len += len;
-		if (total_len > len_name) {
+		if (total_len >= len_name) {
 			return (wdns_res_out_of_bounds);
 		}
 		rev_name -= len;
-- 
2.43.0


From 9ea6d18640e4507977a21cb2768f02c79c9e78cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 08/51] fix: str_to_name: reject a trailing backslash

The escaped character was taken to be the terminating NUL, after which
the text was read on past its end.
---
 wdns/str_to_name.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wdns/str_to_name.c b/wdns/str_to_name.c
index 5afb237..9a77f4a 100644
--- a/wdns/str_to_name.c
+++ b/wdns/str_to_name.c
@@ -74,7 +74,7 @@ _wdns_str_to_name(const char *str, wdns_name_t *name, bool downcase)
 			name->len++;
 		} else if (c == '\\' && !is_digit(*p)) {
 			/* an escaped character */
-			if (slen <= 0)
+			if (slen <= 1)
 				goto out;
 			*data++ = *p;
 			name->len++;
-- 
2.43.0


From 024b1a3284717ca2ec1c55a95fa59b704896a1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 09/51] fix: str_to_name: reject labels of more than 63 octets

The wire form produced for them is not a domain name: the length octet
is one that means something else.
---
 wdns/str_to_name.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/wdns/str_to_name.c b/wdns/str_to_name.c
index 9a77f4a..9b94499 100644
--- a/wdns/str_to_name.c
+++ b/wdns/str_to_name.c
@@ -55,7 +55,9 @@ _wdns_str_to_name(const char *str, wdns_name_t *name, bool downcase)
 				res = wdns_res_name_overflow;
 				goto out;
 			}
-			*oclen = --label_len;
+			if (--label_len > 63)
+				goto out;
+			*oclen = label_len;
 			*data++ = '\0';
 			name->len++;
 			break;
@@ -110,9 +112,10 @@ _wdns_str_to_name(const char *str, wdns_name_t *name, bool downcase)
 			goto out;
 		} else if (c == '.') {
 			/* end of label */
-			*oclen = --label_len;
-			if (label_len == 0)
+			--label_len;
+			if (label_len == 0 || label_len > 63)
 				goto out;
+			*oclen = label_len;
 			oclen = data++;
 			name->len++;
 			if (slen == 1) {
-- 
2.43.0


From 035a2fdfe39ad4a33951a668387bda9f4764877e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:07 +0000
Subject: [PATCH 10/51] fix: parse_edns: the extended RCODE is the upper 8 of
 12 bits (RFC 6891 6.1.3)

---
 wdns/parse_edns.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wdns/parse_edns.c b/wdns/parse_edns.c
index 69fad66..99ab579 100644
--- a/wdns/parse_edns.c
+++ b/wdns/parse_edns.c
@@ -24,7 +24,7 @@ _wdns_parse_edns(wdns_message_t *m, wdns_rr_t *rr)
 	m->edns.options = rr->rdata;
 	rr->rdata = NULL;
 
-	m->rcode |= (rr->rrttl >> 16) & 0xFF00;
+	m->rcode |= (rr->rrttl >> 20) & 0x0FF0;
 
 	wdns_clear_rr(rr);
 
-- 
2.43.0


From a9dcca50a5a87f7e61636fce21cc9a89ee672956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:07 +0000
Subject: [PATCH 11/51] fix: parse_rdata: do not truncate the length of a
 SvcParam

---
 wdns/parse_rdata.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wdns/parse_rdata.c b/wdns/parse_rdata.c
index 8d249e0..9a888e3 100644
--- a/wdns/parse_rdata.c
+++ b/wdns/parse_rdata.c
@@ -267,7 +267,8 @@ _wdns_parse_rdata(wdns_rr_t *rr, const uint8_t *p, const uint8_t *eop,
 				 * SVCB or HTTPS message, parsed per section
 				 * 2.2 of draft-ietf-dnsop-svcb-https-08.
 				 */
-				uint16_t key, val_len, kv_len;
+				uint16_t key, val_len;
+				ssize_t kv_len;
 
 				while (src_bytes > 0) {
 					if (src_bytes < (int)(sizeof(key) +
-- 
2.43.0


From 467d6621a05007acf6553779a6ee4c04525e9ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:07 +0000
Subject: [PATCH 12/51] fix: parse_rdata: reject rdata that exceeds 65535
 octets once expanded

---
 wdns/parse_rdata.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wdns/parse_rdata.c b/wdns/parse_rdata.c
index 9a888e3..8e71fed 100644
--- a/wdns/parse_rdata.c
+++ b/wdns/parse_rdata.c
@@ -330,6 +330,10 @@ _wdns_parse_rdata(wdns_rr_t *rr, const uint8_t *p, const uint8_t *eop,
 
 	/* load rr->rdata */
 	len = ubuf_size(u);
+	if (len > UINT16_MAX) {
+		res = wdns_res_overflow;
+		goto parse_error;
+	}
 	rr->rdata = my_malloc(sizeof(wdns_rdata_t) + len);
 	rr->rdata->len = len;
 	memcpy(rr->rdata->data, ubuf_cstr(u), len);
-- 
2.43.0


From 10e8cdb076518e5f77b7ddb40a58788a7ee35d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:57 +0000
Subject: [PATCH 13/51] fix: downcase_rdata: walk names by label and do not run
 past the end of the rdata

---
 wdns/downcase_rdata.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/wdns/downcase_rdata.c b/wdns/downcase_rdata.c
index 3e4e275..25ed69d 100644
--- a/wdns/downcase_rdata.c
+++ b/wdns/downcase_rdata.c
@@ -79,14 +79,17 @@ wdns_downcase_rdata(wdns_rdata_t *rdata, uint16_t rrtype, uint16_t rrclass)
 			switch (*t) {
 			case rdf_name:
 			case rdf_uname:
-				while (bytes_remaining-- != 0) {
-					if (*p == 0) {
-						p++;
+				while (bytes_remaining != 0) {
+					oclen = *p++;
+					bytes_remaining--;
+					if (oclen == 0)
 						break;
+					while (oclen-- != 0 && bytes_remaining != 0) {
+						if (*p >= 'A' && *p <= 'Z')
+							*p |= 0x20;
+						p++;
+						bytes_remaining--;
 					}
-					if (*p >= 'A' && *p <= 'Z')
-						*p |= 0x20;
-					p++;
 				}
 				break;
 
-- 
2.43.0


From 1b4fad078ba763daaf8d1e94c8a0cdb959719471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:57 +0000
Subject: [PATCH 14/51] fix: downcase_rdata: length of the address suffix of an
 A6 record

---
 wdns/downcase_rdata.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wdns/downcase_rdata.c b/wdns/downcase_rdata.c
index 25ed69d..ea43ed7 100644
--- a/wdns/downcase_rdata.c
+++ b/wdns/downcase_rdata.c
@@ -135,9 +135,9 @@ wdns_downcase_rdata(wdns_rdata_t *rdata, uint16_t rrtype, uint16_t rrclass)
 
 			case rdf_ipv6prefix:
 				oclen = *p;
-				if (oclen > 16U)
+				if (oclen > 128U)
 					return (wdns_res_parse_error);
-				advance_bytes(oclen + 1U);
+				advance_bytes((128U - oclen + 7U) / 8U + 1U);
 				break;
 
 			default:
-- 
2.43.0


From f06db184fe99c0ff4d76bc8672d09e98c7b9e2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:41 +0000
Subject: [PATCH 15/51] fix: file_load_names: do not write before the line
 buffer when a line starts with NUL

---
 wdns/file_load_names.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wdns/file_load_names.c b/wdns/file_load_names.c
index 67faf57..3a24d2c 100644
--- a/wdns/file_load_names.c
+++ b/wdns/file_load_names.c
@@ -32,8 +32,9 @@ wdns_file_load_names(const char *fname, wdns_callback_name cb, void *user)
 	while (fgets(line, sizeof(line), fp) != NULL) {
 		if (line[0] == '\n' || line[0] == ' ' || line[0] == '#')
 			continue;
-		if (line[strlen(line) - 1] == '\n')
-			line[strlen(line) - 1] = '\0';
+		size_t len = strlen(line);
+		if (len > 0 && line[len - 1] == '\n')
+			line[len - 1] = '\0';
 		res = wdns_str_to_name(line, &name);
 		if (res != wdns_res_success)
 			break;
-- 
2.43.0


From 4125883c51920cce269110ee6c9cf5f3d7789755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:55 +0000
Subject: [PATCH 16/51] fix: base64_decode_value: do not read the octet after
 the table

---
 libmy/b64_decode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/b64_decode.c b/libmy/b64_decode.c
index aeaf8ca..1ea9352 100644
--- a/libmy/b64_decode.c
+++ b/libmy/b64_decode.c
@@ -12,7 +12,7 @@ int base64_decode_value(char value_in)
 	static const char decoding[] = {62,-1,-1,-1,63,52,53,54,55,56,57,58,59,60,61,-1,-1,-1,-2,-1,-1,-1,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,-1,-1,-1,-1,-1,-1,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51};
 	static const char decoding_size = sizeof(decoding);
 	value_in -= 43;
-	if (value_in < 0 || value_in > decoding_size) return -1;
+	if (value_in < 0 || value_in >= decoding_size) return -1;
 	return decoding[(int)value_in];
 }
 
-- 
2.43.0


From ff76cfc5c10524740586a7270b1338a7af1443d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:08 +0000
Subject: [PATCH 17/51] fix: varint_decode32: no signed overflow for values of
 2^31 and more

---
 libmy/varint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/varint.c b/libmy/varint.c
index 6969274..c1c3d68 100644
--- a/libmy/varint.c
+++ b/libmy/varint.c
@@ -154,7 +154,7 @@ varint_decode32(const uint8_t *data, uint32_t *value)
 			if (len > 3) {
 				val |= ((data[3] & 0x7f) << 21);
 				if (len > 4)
-					val |= (data[4] << 28);
+					val |= ((uint32_t) data[4] << 28);
 			}
 		}
 	}
-- 
2.43.0


From a5c202019ceae05b48170ce19242cfbe12b6e119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:08 +0000
Subject: [PATCH 18/51] fix: ip4_lower, ip4_upper: prefix lengths 0 and 1

A shift by 32 is undefined; in practice the address itself came back for /0.
---
 libmy/ip_arith.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmy/ip_arith.h b/libmy/ip_arith.h
index c0390fd..d090420 100644
--- a/libmy/ip_arith.h
+++ b/libmy/ip_arith.h
@@ -34,7 +34,7 @@ static inline void
 ip4_lower(const void *address, unsigned prefix_len, void *out) {
 	uint32_t addr;
 	memcpy(&addr, address, 4);
-	addr &= htobe32(~((1 << (32 - prefix_len)) - 1));
+	addr &= htobe32(~(uint32_t)((1ULL << (32 - prefix_len)) - 1));
 	memcpy(out, &addr, 4);
 }
 
@@ -44,7 +44,7 @@ static inline void
 ip4_upper(const void *address, unsigned prefix_len, void *out) {
 	uint32_t addr;
 	memcpy(&addr, address, 4);
-	addr |= htobe32((1 << (32 - prefix_len)) - 1);
+	addr |= htobe32((uint32_t)((1ULL << (32 - prefix_len)) - 1));
 	memcpy(out, &addr, 4);
 }
 
-- 
2.43.0


From 6a548ae529ecdad988f59eabaaf827cf8407bdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:24 +0000
Subject: [PATCH 19/51] fix: ip6_lower, ip6_upper: no shift by 64 for prefix
 lengths 0 and 64

---
 libmy/ip_arith.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmy/ip_arith.h b/libmy/ip_arith.h
index d090420..175a79c 100644
--- a/libmy/ip_arith.h
+++ b/libmy/ip_arith.h
@@ -65,12 +65,12 @@ ip6_lower(const void *address, unsigned prefix_len, void *lower)
 {
 	uint64_t addr[2], mask[2];
 	if (prefix_len < 64) {
-		mask[0] = htobe64(((1ULL << prefix_len) - 1ULL) << (64ULL - prefix_len));
+		mask[0] = htobe64(~(UINT64_MAX >> prefix_len));
 		mask[1] = htobe64(0);
 	} else if (prefix_len < 128) {
 		prefix_len -= 64;
 		mask[0] = htobe64(UINT64_MAX);
-		mask[1] = htobe64(((1ULL << prefix_len) - 1ULL) << (64ULL - prefix_len));
+		mask[1] = htobe64(~(UINT64_MAX >> prefix_len));
 	} else {
 		memset(mask, 0xFF, sizeof(mask));
 	}
@@ -87,12 +87,12 @@ ip6_upper(const void *address, unsigned prefix_len, void *upper)
 {
 	uint64_t addr[2], mask[2];
 	if (prefix_len < 64) {
-		mask[0] = htobe64(~(((1ULL << prefix_len) - 1ULL) << (64ULL - prefix_len)));
+		mask[0] = htobe64(~(~(UINT64_MAX >> prefix_len)));
 		mask[1] = htobe64(UINT64_MAX);
 	} else if (prefix_len < 128) {
 		prefix_len -= 64;
 		mask[0] = htobe64(0);
-		mask[1] = htobe64(~(((1ULL << prefix_len) - 1ULL) << (64ULL - prefix_len)));
+		mask[1] = htobe64(~(~(UINT64_MAX >> prefix_len)));
 	} else {
 		memset(&mask, 0, sizeof(mask));
 	}
-- 
2.43.0


From 89afbaacf78e3450c97ffc32f89f64369a885b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:24 +0000
Subject: [PATCH 20/51] fix: heap_get: an empty heap has no element

---
 libmy/heap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/heap.c b/libmy/heap.c
index 1d8f7ee..a28cdcf 100644
--- a/libmy/heap.c
+++ b/libmy/heap.c
@@ -146,7 +146,7 @@ heap_peek(struct heap *h)
 void *
 heap_get(struct heap *h, size_t i)
 {
-	if (i > ptrvec_size(h->vec) - 1)
+	if (i >= ptrvec_size(h->vec))
 		return (NULL);
 	return (ptrvec_value(h->vec, i));
 }
-- 
2.43.0


From f38da597754af6c723b7417f4c0f52637cdf28d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:27 +0000
Subject: [PATCH 21/51] fix: str_to_rrtype/str_to_rrclass accept only digits
 after TYPE and CLASS

strtol() also takes leading white space and a sign, so that "TYPE+5" and
"CLASS 3" were accepted.  RFC 3597 has the decimal number follow directly.
---
 wdns/gen_rrclass_to_str | 2 ++
 wdns/gen_rrtype_to_str  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/wdns/gen_rrclass_to_str b/wdns/gen_rrclass_to_str
index 8f1953a..a390e86 100755
--- a/wdns/gen_rrclass_to_str
+++ b/wdns/gen_rrclass_to_str
@@ -98,6 +98,8 @@ convert_generic_rrclass(const char *s, long int *val) {
         return (false);
 
     s += 5; /* skip leading "CLASS" */
+    if (*s < '0' || *s > '9')
+        return (false);
 
     *val = strtol(s, &endptr, 10);
     if (endptr != NULL && *endptr != '\\0')
diff --git a/wdns/gen_rrtype_to_str b/wdns/gen_rrtype_to_str
index b005a20..7cdd0b3 100755
--- a/wdns/gen_rrtype_to_str
+++ b/wdns/gen_rrtype_to_str
@@ -96,6 +96,8 @@ convert_generic_rrtype(const char *s, long int *val) {
         return (false);
 
     s += 4; /* skip leading "TYPE" */
+    if (*s < '0' || *s > '9')
+        return (false);
 
     *val = strtol(s, &endptr, 10);
     if (endptr != NULL && *endptr != '\\0')
-- 
2.43.0


From 9057b6cdea02241d8e46ea1f965f45deee764b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:26 +0000
Subject: [PATCH 22/51] fix: parse ech SvcParam values of any length

An ech value of more than 255 base64 characters (191 octets) was rendered
as text but that text was rejected.  The length of a SvcParamValue is a
16-bit field; values that do not fit in it are rejected instead of having
their length truncated.
---
 wdns/str_to_rdata_ubuf.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index be6cb30..3ce4c26 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -228,9 +228,6 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 		}
 
 		tok_len = strlen(tok);
-		if (tok_len > UINT8_MAX) {
-			return (wdns_res_parse_error);
-		}
 		val_len = base64_str_to_ubuf(tok, tok_len, u);
 		break;
 
@@ -333,6 +330,9 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 	/*
 	 * Set the correct length for the SvcParamValue.
 	 */
+	if (ubuf_size(u) - val_len_offset - sizeof(val_len) > UINT16_MAX) {
+		return (wdns_res_parse_error);
+	}
 	val_len = htons(val_len);
 	(void) memcpy(&ubuf_data(u)[val_len_offset], &val_len,
 	    sizeof (val_len));
-- 
2.43.0


From 833ef3d4d1b48abaec844cd1f91156dfae603248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:26 +0000
Subject: [PATCH 23/51] fix: reject empty and over-long alpn ids in SvcParam
 text

An alpn-id is 1 to 255 octets.  An empty last alpn-id left a stray octet
after the value, outside of its length, and the length of an alpn-id of
more than 255 octets was truncated.
---
 wdns/str_to_rdata_ubuf.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 3ce4c26..22183ee 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -296,12 +296,18 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 					return (wdns_res_parse_error);
 				}
 
+				if (oclen == UINT8_MAX) {
+					return (wdns_res_parse_error);
+				}
 				ubuf_append(u, (uint8_t *)&c, 1);
 				oclen++;
 			} else if (c == ',') {
 				/*
 				 * An unescaped comma separates two values.
 				 */
+				if (oclen == 0) {
+					return (wdns_res_parse_error);
+				}
 				ubuf_data(u)[offset] = oclen;
 				val_len += oclen + sizeof (uint8_t);
 
@@ -309,15 +315,20 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 				oclen = 0;
 				ubuf_append(u, &oclen, sizeof (uint8_t));
 			} else {
+				if (oclen == UINT8_MAX) {
+					return (wdns_res_parse_error);
+				}
 				ubuf_append(u, (uint8_t *)&c, 1);
 				oclen++;
 			}
 		}
 
-		if (oclen != 0) {
-			ubuf_data(u)[offset] = oclen;
-			val_len += oclen + sizeof (uint8_t);
+		/* RFC 9460 section 7.1.1: an alpn-id is 1 to 255 octets */
+		if (oclen == 0) {
+			return (wdns_res_parse_error);
 		}
+		ubuf_data(u)[offset] = oclen;
+		val_len += oclen + sizeof (uint8_t);
 
 		break;
 	}
-- 
2.43.0


From 326cfa290d7385e5c55ed544aadb38de9514f883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:35 +0000
Subject: [PATCH 24/51] fix: read hexadecimal octets in rdata text from two
 digits only

sscanf("%02hhx") skips white space and accepts signs and a single digit,
so that "AB  CD" became AB CD CD and "1 2 " became 01 02, and it returns
EOF, not 0, when only white space is left, in which case an uninitialised
octet was appended.
---
 wdns/str_to_rdata_ubuf.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 22183ee..13cf638 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -78,6 +78,17 @@ err:
 	return 0;
 }
 
+/*
+ * str_to_octet() converts exactly two hexadecimal digits to an octet.
+ */
+static bool
+str_to_octet(const char *str, uint8_t *c)
+{
+	if (!isxdigit((unsigned char)str[0]) || !isxdigit((unsigned char)str[1]))
+		return (false);
+	return (sscanf(str, "%2hhx", c) == 1);
+}
+
 /*
  * base64_str_to_ubuf() decodes a base64 value and appends it to the given ubuf.
  */
@@ -415,7 +426,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 				res = wdns_res_parse_error;
 				goto err;
 			}
-			if (!sscanf(str, "%02hhx", &c)) {
+			if (!str_to_octet(str, &c)) {
 				res = wdns_res_parse_error;
 				goto err;
 			}
@@ -488,7 +499,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 					res = wdns_res_parse_error;
 					goto err;
 				}
-				if (!sscanf(str, "%02hhx", &c)) {
+				if (!str_to_octet(str, &c)) {
 					res = wdns_res_parse_error;
 					goto err;
 				}
@@ -625,7 +636,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 
 				while (oclen > 0) {
 					uint8_t c;
-					if (!sscanf(str, "%02hhx", &c)) {
+					if (!str_to_octet(str, &c)) {
 						res = wdns_res_parse_error;
 						goto err;
 					}
-- 
2.43.0


From 1da4c52d4e05feb00ca3d4553df9b252238d2e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:35 +0000
Subject: [PATCH 25/51] fix: check the length in generic rdata text

"\\#" followed by white space only left the length uninitialised, and
sscanf("%hu") truncated lengths above 65535 ("\\# 65537 00" was accepted
as one octet).
---
 wdns/str_to_rdata_ubuf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 13cf638..77daa6a 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -406,8 +406,8 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 			ptr++;
 		}
 
-		uint16_t rdlen;
-		if (sscanf(str, "%hu", &rdlen) == 0) {
+		uint64_t rdlen;
+		if (sscanf(str, "%" SCNu64, &rdlen) != 1) {
 			res = wdns_res_parse_error;
 			goto err;
 		}
-- 
2.43.0


From 623b15e2a13b77b6b764d182c1ac78dfe81c8e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:35 +0000
Subject: [PATCH 26/51] fix: check the range of the A6 prefix length in rdata
 text

sscanf("%hhu") truncates to eight bits, so that a prefix length of 300
was accepted as 44.
---
 wdns/str_to_rdata_ubuf.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 77daa6a..f0bbaa4 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -530,6 +530,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 		}
 
 		case rdf_ipv6prefix: {
+			uint64_t s_val;
 			uint8_t prefix_len;
 			const char *end = strpbrk(str, " \t\r\n");
 			const char *ptr = str;
@@ -545,15 +546,16 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 				}
 			}
 
-			if (sscanf(str, "%hhu", &prefix_len) == 0) {
+			if (sscanf(str, "%" SCNu64, &s_val) != 1) {
 				res = wdns_res_parse_error;
 				goto err;
 			}
 
-			if (prefix_len > 128) {
+			if (s_val > 128) {
 				res = wdns_res_parse_error;
 				goto err;
 			}
+			prefix_len = (uint8_t)s_val;
 
 			ubuf_append(u, &prefix_len, sizeof(prefix_len));
 
-- 
2.43.0


From a0a51d7ba6598140746a1a5e729fbbfaee198854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:51 +0000
Subject: [PATCH 27/51] fix: accept only decimal digits as SvcParam port and
 key numbers

strtoul() also takes white space and a sign, so that "port=+53",
"port=-18446744073709551615" and "key-18446744073709551609" were accepted.
---
 wdns/str_to_rdata_ubuf.c   | 3 ++-
 wdns/svcparamkeys_to_str.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index f0bbaa4..ec9abf0 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -219,7 +219,8 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 		}
 
 		tmpul = strtoul(tok, &endport, 10);
-		if (*endport != '\0' || tmpul > UINT16_MAX) {
+		if (!isdigit((unsigned char)*tok) || *endport != '\0' ||
+		    tmpul > UINT16_MAX) {
 			return (wdns_res_parse_error);
 		}
 
diff --git a/wdns/svcparamkeys_to_str.c b/wdns/svcparamkeys_to_str.c
index 1fca8ef..bf20907 100644
--- a/wdns/svcparamkeys_to_str.c
+++ b/wdns/svcparamkeys_to_str.c
@@ -79,7 +79,8 @@ _wdns_str_to_svcparamkey(char *str)
 		key = strtoul(str + strlen("key"), &endp, 10);
 		assert(endp != NULL);
 
-		if (*endp != '\0' || key >= (unsigned long int)spr_invalid) {
+		if (!isdigit((unsigned char)str[3]) || *endp != '\0' ||
+		    key >= (unsigned long int)spr_invalid) {
 			return (spr_invalid);
 		}
 
-- 
2.43.0


From dd23f5cd7ca7dd23dc2809815608a3b4e9b83e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:19 +0000
Subject: [PATCH 28/51] fix: reject NUL in SvcParam values that are lists or
 numbers

"port=80\\000junk" was accepted as port 80: the value was parsed as a C
string that ends at the NUL.
---
 wdns/str_to_rdata_ubuf.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index ec9abf0..8d7bb78 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -184,6 +184,24 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 	val_len_offset = ubuf_size(u);
 	ubuf_append(u, (uint8_t*)&val_len, sizeof(val_len));
 
+	/*
+	 * The values of the keys in these cases are parsed as C strings, so
+	 * that an escaped NUL would hide the rest of the value.
+	 */
+	switch (key) {
+	case spr_mandatory:
+	case spr_port:
+	case spr_ech:
+	case spr_ipv4hint:
+	case spr_ipv6hint:
+		if (memchr(val, '\0', len_val) != NULL) {
+			return (wdns_res_parse_error);
+		}
+		break;
+	default:
+		break;
+	}
+
 	/*
 	 * Let's parse the value(s) now.
 	 */
-- 
2.43.0


From abf1038f417322a00e92bcdea2329dfb2bcdaf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:42 +0000
Subject: [PATCH 29/51] fix: use the whole value of port and ech SvcParams

What followed a space in a quoted value was ignored: port="53 junk" was
accepted as port 53.  Both values are a single token.
---
 wdns/str_to_rdata_ubuf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 8d7bb78..6937ec8 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -231,7 +231,7 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 		 * The wire format of the SvcParamValue is the corresponding
 		 * 2 octet numeric value in network byte order.
 		 */
-		tok = strtok_r(val, " ", &endp);
+		tok = val;
 		if (tok == NULL || *tok == '\0') {
 			return (wdns_res_parse_error);
 		}
@@ -252,7 +252,7 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 		 * In wire format, the value of the parameter is an
 		 * ECHConfigList [ECH], including the redundant length prefix.
 		 */
-		tok = strtok_r(val, " ", &endp);
+		tok = val;
 		if (tok == NULL || *tok == '\0') {
 			return (wdns_res_parse_error);
 		}
-- 
2.43.0


From 1fb02e35cab81e719d09d6688bdc33da48f6189a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:12 +0000
Subject: [PATCH 30/51] fix: do not read beyond the rdatas of an RRset rendered
 as a question

---
 wdns/rrset_to_ubuf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wdns/rrset_to_ubuf.c b/wdns/rrset_to_ubuf.c
index c12b426..4cb0386 100644
--- a/wdns/rrset_to_ubuf.c
+++ b/wdns/rrset_to_ubuf.c
@@ -31,7 +31,8 @@ _wdns_rrset_to_ubuf(ubuf *u, wdns_rrset_t *rrset, unsigned sec)
 		rr.rrclass = rrset->rrclass;
 		rr.name.len = rrset->name.len;
 		rr.name.data = rrset->name.data;
-		rr.rdata = rrset->rdatas[i];
+		/* A question has no rdata, its RRset need not have any. */
+		rr.rdata = (i < rrset->n_rdatas) ? rrset->rdatas[i] : NULL;
 		_wdns_rr_to_ubuf(u, &rr, sec);
 	}
 }
-- 
2.43.0


From 42e18f8d69e959b4d335a73d9872464b70a6c461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:02 +0000
Subject: [PATCH 31/51] fix: my_timespec_from_double(): seconds beyond INT_MAX
 overflowed

---
 libmy/my_time.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/my_time.h b/libmy/my_time.h
index 4fa9281..4ace4b0 100644
--- a/libmy/my_time.h
+++ b/libmy/my_time.h
@@ -59,7 +59,7 @@ my_timespec_to_double(const struct timespec *ts)
 static inline void
 my_timespec_from_double(double seconds, struct timespec *ts) {
 	ts->tv_sec = (time_t) seconds;
-	ts->tv_nsec = (long) ((seconds - ((int) seconds)) * 1E9);
+	ts->tv_nsec = (long) ((seconds - (double) ts->tv_sec) * 1E9);
 }
 
 static inline void
-- 
2.43.0


From e010e275ac8b57cf018cd19ea49d614340f16cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:23 +0000
Subject: [PATCH 32/51] fix: base32_decode: use a constant table

The table was filled lazily on the first call without synchronisation: a
second thread could use it half filled and reject valid input.
---
 libmy/b32_decode.c | 47 ++++++++++++++++++----------------------------
 1 file changed, 18 insertions(+), 29 deletions(-)

diff --git a/libmy/b32_decode.c b/libmy/b32_decode.c
index 0b7790b..f7a5194 100644
--- a/libmy/b32_decode.c
+++ b/libmy/b32_decode.c
@@ -74,33 +74,32 @@ cast_to_constpointer(const void *p)
         return p;
 }
 
-static inline bool
-is_ascii_lower(int c)
-{
-        return c >= 97 && c <= 122;             /* a-z */
-}
-
-static inline int
-ascii_toupper(int c)
-{
-        return is_ascii_lower(c) ? c - 32 : c;
-}
-
 static inline size_t
 ptr_diff(const void *a, const void *b)
 {
         return (const char *) a - (const char *) b;
 }
 
-static const char base32_alphabet[32] = {
-	'0', '1', '2', '3', '4', '5', '6', '7', '8', '9',
-	'A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J',
-	'K', 'L', 'M', 'N', 'O', 'P', 'Q', 'R', 'S', 'T',
-	'U', 'V'
+/* Values of the digits 0-9, A-V and a-v; -1 for all other characters. */
+static const signed char base32_map[(size_t) (unsigned char) -1 + 1] = {
+	-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+	-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+	-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+	 0,  1,  2,  3,  4,  5,  6,  7,  8,  9, -1, -1, -1, -1, -1, -1,
+	-1, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24,
+	25, 26, 27, 28, 29, 30, 31, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+	-1, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24,
+	25, 26, 27, 28, 29, 30, 31, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+	-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+	-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+	-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+	-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+	-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+	-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+	-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+	-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
 };
 
-static char base32_map[(size_t) (unsigned char) -1 + 1];
-
 /**
  * Decode a base32 encoding of `len' bytes of `data' into the buffer `dst'.
  *
@@ -121,16 +120,6 @@ base32_decode(void *dst, size_t size, const char *data, size_t len)
 	int pad = 0;
 	size_t i, si;
 
-	if (0 == base32_map[0]) {
-		for (i = 0; i < G_N_ELEMENTS(base32_map); i++) {
-			const char *x;
-
-			x = memchr(base32_alphabet, ascii_toupper(i),
-					   sizeof base32_alphabet);
-			base32_map[i] = x ? (x - base32_alphabet) : (unsigned char) -1;
-		}
-	}
-
 	ZERO(&s);
 	si = 0;
 	i = 0;
-- 
2.43.0


From ad6396ed0bc382e149de452655fff07c5c290cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:23 +0000
Subject: [PATCH 33/51] fix: wdns-dump-pcap: check the IP header against the
 captured length

A packet cut within the IP header was read beyond its end, and an IP length
below the header length made the payload length wrap around.
---
 examples/wdns-dump-pcap.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/examples/wdns-dump-pcap.c b/examples/wdns-dump-pcap.c
index 3313c0a..ed31077 100644
--- a/examples/wdns-dump-pcap.c
+++ b/examples/wdns-dump-pcap.c
@@ -61,12 +61,16 @@ packet_handler(u_char *dumper,
 	}
 
 	/* skip ip */
-	ihl = *p & 0x0f;
-	if (len < ihl * 4U) {
+	if (len < 20) {
 		VERBOSE("count=%" PRIu64" IP too short\n", count);
 		return;
 	}
+	ihl = *p & 0x0f;
 	getu16(ip_len, p + 2);
+	if (ihl < 5 || len < ihl * 4U || ip_len < ihl * 4U) {
+		VERBOSE("count=%" PRIu64" bad IP header\n", count);
+		return;
+	}
 	if (ip_len < len)
 		len = ip_len;
 	advance(p, len, ihl * 4U);
-- 
2.43.0


From 5cd9912fb51f64c02f243b04420e080d6b5c1f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:23 +0000
Subject: [PATCH 34/51] fix: my_fileset: do not hold a file twice that is
 listed twice

Both entries shared one object, which was unloaded twice.
---
 libmy/my_fileset.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libmy/my_fileset.c b/libmy/my_fileset.c
index 09f5078..79c9cef 100644
--- a/libmy/my_fileset.c
+++ b/libmy/my_fileset.c
@@ -107,6 +107,16 @@ fetch_entry(entry_vec *entries, char *fname)
 	return (ent);
 }
 
+static bool
+has_entry(entry_vec *entries, const char *fname)
+{
+	for (size_t i = 0; i < entry_vec_size(entries); i++) {
+		if (strcmp(entry_vec_value(entries, i)->fname, fname) == 0)
+			return (true);
+	}
+	return (false);
+}
+
 struct my_fileset *
 my_fileset_init(
 	const char *setfile,
@@ -180,7 +190,7 @@ my_fileset_reload(struct my_fileset *fs)
 		ubuf_add_cstr(u, line);
 		ubuf_rstrip(u, '\n');
 		fname = ubuf_cstr(u);
-		if (path_exists(fname)) {
+		if (!has_entry(new_entries, fname) && path_exists(fname)) {
 			entptr = fetch_entry(fs->entries, fname);
 			if (entptr == NULL) {
 				ent = my_calloc(1, sizeof(*ent));
-- 
2.43.0


From a24fd1e1a77d2f8c6eac6c8339df7d22af652d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:23 +0000
Subject: [PATCH 35/51] fix: my_fileset: reload again after the set file could
 not be opened

The change was recorded as seen before the file was read, so that the
entries stayed stale until the next change.
---
 libmy/my_fileset.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libmy/my_fileset.c b/libmy/my_fileset.c
index 79c9cef..fcae6bf 100644
--- a/libmy/my_fileset.c
+++ b/libmy/my_fileset.c
@@ -177,8 +177,12 @@ my_fileset_reload(struct my_fileset *fs)
 		return;
 
 	fp = fopen(fs->setfile, "r");
-	if (fp == NULL)
+	if (fp == NULL) {
+		/* not read: try again on the next reload */
+		fs->last_ino = 0;
+		fs->last_mtime = 0;
 		return;
+	}
 
 	u = ubuf_init(64);
 	new_entries = entry_vec_init(1);
-- 
2.43.0


From 3140c1aeb57b3fe3447ea732e350b49331663ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:02 +0000
Subject: [PATCH 36/51] Revert "fix: wdns-dump-pcap: check the IP header
 against the captured length"

The example tools are left as they were; recorded as a known finding in /verif.
---
 examples/wdns-dump-pcap.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/examples/wdns-dump-pcap.c b/examples/wdns-dump-pcap.c
index ed31077..3313c0a 100644
--- a/examples/wdns-dump-pcap.c
+++ b/examples/wdns-dump-pcap.c
@@ -61,16 +61,12 @@ packet_handler(u_char *dumper,
 	}
 
 	/* skip ip */
-	if (len < 20) {
+	ihl = *p & 0x0f;
+	if (len < ihl * 4U) {
 		VERBOSE("count=%" PRIu64" IP too short\n", count);
 		return;
 	}
-	ihl = *p & 0x0f;
 	getu16(ip_len, p + 2);
-	if (ihl < 5 || len < ihl * 4U || ip_len < ihl * 4U) {
-		VERBOSE("count=%" PRIu64" bad IP header\n", count);
-		return;
-	}
 	if (ip_len < len)
 		len = ip_len;
 	advance(p, len, ihl * 4U);
-- 
2.43.0


From 06eb5485ef73be9ae1f4dd3f48c42244cad89ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:11 +0000
Subject: [PATCH 37/51] fix: argv: grow the queue of options that wait for a
 value

A cluster of short options, or a file of arguments, can hold more options
than there are arguments.
---
 libmy/argv.c | 111 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 74 insertions(+), 37 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 16b1c84..a90a193 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -31,7 +31,7 @@
 
 /* internal routines -- we need this because of recusion */
 static	void	do_list(argv_t *grid, const int arg_c, char **argv,
-			argv_t **queue_list, int *queue_head_p,
+			argv_t ***queue_list_p, int *queue_head_p,
 			int *queue_tail_p, int *okay_bp);
 
 #define LOC_SNPRINTF(...)	(void)snprintf(__VA_ARGS__);
@@ -2150,7 +2150,7 @@ static	int	check_opt(const int queue_head, const int queue_tail)
  *
  * grid -> Array of argv_t structures we are using.
  *
- * queue_list <-> Our option queue for storing options to arguments.
+ * queue_list_p <-> Pointer to our option queue for storing options to arguments.
  *
  * queue_head_p <-> Pointer to integer which will be updated with the
  * head position in our option queue.
@@ -2162,7 +2162,7 @@ static	int	check_opt(const int queue_head, const int queue_tail)
  * arguments specified in the env variable are somehow invalid.
  */
 static	void	file_args(const char *path, argv_t *grid,
-			  argv_t **queue_list, int *queue_head_p,
+			  argv_t ***queue_list_p, int *queue_head_p,
 			  int *queue_tail_p, int *okay_bp)
 {
   char	**argv, **argv_p;
@@ -2256,7 +2256,7 @@ static	void	file_args(const char *path, argv_t *grid,
   }
   
   /* now do the list */
-  do_list(grid, arg_c, argv, queue_list, queue_head_p, queue_tail_p, okay_bp);
+  do_list(grid, arg_c, argv, queue_list_p, queue_head_p, queue_tail_p, okay_bp);
   
   /* now free up the list */
   for (argv_p = argv; argv_p < argv + arg_c; argv_p++) {
@@ -2269,6 +2269,55 @@ static	void	file_args(const char *path, argv_t *grid,
   }
 }
 
+/*
+ * static int queue_arg
+ *
+ * DESCRIPTION:
+ *
+ * Add an argument that needs a value to our option queue.
+ *
+ * RETURNS:
+ *
+ * Success - 0
+ *
+ * Faulure - -1
+ *
+ * ARGUMENTS:
+ *
+ * match_p -> Entry in our argv_t structure array that needs a value
+ * or NULL for the file argument.
+ *
+ * queue_list_p <-> Pointer to our option queue which will be grown.
+ *
+ * queue_head_p <-> Pointer to integer which will be updated with the
+ * head position in our option queue.
+ */
+static	int	queue_arg(argv_t *match_p, argv_t ***queue_list_p,
+			  int *queue_head_p)
+{
+  argv_t	**queue_list;
+  
+  queue_list = (argv_t **)realloc(*queue_list_p, sizeof(argv_t *) *
+				  (*queue_head_p + 1));
+  if (queue_list == NULL) {
+    if (argv_error_stream != NULL) {
+      (void)fprintf(argv_error_stream,
+		    "%s: memory error during argument processing\n",
+		    argv_program);
+    }
+    if (argv_interactive) {
+      (void)exit(argv_error_code);
+    }
+    return ERROR;
+  }
+  
+  queue_list[*queue_head_p] = match_p;
+  (*queue_head_p)++;
+  *queue_list_p = queue_list;
+  
+  return NOERROR;
+}
+
 /*
  * static void do_arg
  *
@@ -2291,7 +2340,7 @@ static	void	file_args(const char *path, argv_t *grid,
  * close_p -> Pointer to the value closely associated (with an '=')
  * with this option or NULL if none.
  *
- * queue_list <-> Our option queue for storing options to arguments.
+ * queue_list_p <-> Pointer to our option queue for storing options to arguments.
  *
  * queue_head_p <-> Pointer to integer which will be updated with the
  * head position in our option queue.
@@ -2300,7 +2349,7 @@ static	void	file_args(const char *path, argv_t *grid,
  * arguments specified in the env variable are somehow invalid.
  */
 static	void	do_arg(argv_t *grid, argv_t *match_p, const char *close_p,
-		       argv_t **queue_list, int *queue_head_p, int *okay_bp)
+		       argv_t ***queue_list_p, int *queue_head_p, int *okay_bp)
 {
   if (! argv_multi_accept_b) {
     /*
@@ -2356,8 +2405,9 @@ static	void	do_arg(argv_t *grid, argv_t *match_p, const char *close_p,
     }
   }
   else {
-    queue_list[*queue_head_p] = match_p;
-    (*queue_head_p)++;
+    if (queue_arg(match_p, queue_list_p, queue_head_p) != NOERROR) {
+      *okay_bp = ARGV_FALSE;
+    }
   }
 }
 
@@ -2421,7 +2471,7 @@ static	int	is_number(const char *str)
  *
  * argv - User argument array of character pointers.
  *
- * queue_list <-> Our option queue for storing options to arguments.
+ * queue_list_p <-> Pointer to our option queue for storing options to arguments.
  *
  * queue_head_p <-> Pointer to integer which will be updated with the
  * head position in our option queue.
@@ -2433,7 +2483,7 @@ static	int	is_number(const char *str)
  * arguments specified in the env variable are somehow invalid.
  */
 static	void	do_list(argv_t *grid, const int arg_c, char **argv,
-			argv_t **queue_list, int *queue_head_p,
+			argv_t ***queue_list_p, int *queue_head_p,
 			int *queue_tail_p, int *okay_bp)
 {
   argv_t	*grid_p, *match_p;
@@ -2525,7 +2575,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
       }
       
       if (match_p != NULL) {
-	(void)do_arg(grid, match_p, close_p, queue_list, queue_head_p,
+	(void)do_arg(grid, match_p, close_p, queue_list_p, queue_head_p,
 		     okay_bp);
 	continue;
       }
@@ -2536,13 +2586,14 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
       if (strncmp(FILE_ARG, *arg_p + LONG_PREFIX_LENGTH, len) == 0) {
 	if (argv_close_enable_b && close_p != NULL) {
 	  /* open the file and read in the args */
-	  file_args(close_p, grid, queue_list, queue_head_p, queue_tail_p,
+	  file_args(close_p, grid, queue_list_p, queue_head_p, queue_tail_p,
 		    okay_bp);
 	}
 	else {
 	  /* HACK: we enqueue null for the file argument */
-	  queue_list[*queue_head_p] = NULL;
-	  (*queue_head_p)++;
+	  if (queue_arg(NULL, queue_list_p, queue_head_p) != NOERROR) {
+	    *okay_bp = ARGV_FALSE;
+	  }
 	}
 	continue;
       }
@@ -2708,7 +2759,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	  if (char_c == 0 && is_number(*arg_p)
 	      && *queue_head_p > *queue_tail_p) {
 	    
-	    match_p = queue_list[*queue_tail_p];
+	    match_p = (*queue_list_p)[*queue_tail_p];
 	    /*
 	     * NOTE: we don't advance the queue tail here unless we
 	     * find out that we can use it below
@@ -2741,7 +2792,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	  continue;
 	}
 	
-	do_arg(grid, match_p, close_p, queue_list, queue_head_p, okay_bp);
+	do_arg(grid, match_p, close_p, queue_list_p, queue_head_p, okay_bp);
       }
       
       continue;
@@ -2751,12 +2802,12 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
     if (grid->ar_short_arg != ARGV_LAST && *queue_head_p > *queue_tail_p) {
       
       /* pull the variable waiting for a value from the queue */
-      match_p = queue_list[*queue_tail_p];
+      match_p = (*queue_list_p)[*queue_tail_p];
       (*queue_tail_p)++;
       
       /* HACK: is this the file argument */
       if (match_p == NULL) {
-	file_args(*arg_p, grid, queue_list, queue_head_p, queue_tail_p,
+	file_args(*arg_p, grid, queue_list_p, queue_head_p, queue_tail_p,
 		  okay_bp);
       }
       else {
@@ -3124,7 +3175,7 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   int		okay_b = ARGV_TRUE;
   argv_t	*arg_p;
   argv_t	**queue_list = NULL;
-  int		queue_head = 0, queue_tail = 0, env_n, total_arg_n;
+  int		queue_head = 0, queue_tail = 0, env_n;
   
   if (args == NULL) {
     args = empty;
@@ -3186,22 +3237,10 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
 
   /* preprocess environmental args */
   env_vect_p = preprocess_env_args(&environ_p, &env_n);
-  total_arg_n = arg_n + env_n;
 
-  /* allocate our value queue */
-  if (total_arg_n > 0) {
-    /* allocate our argument queue */
-    queue_list = (argv_t **)malloc(sizeof(argv_t *) * total_arg_n);
-    if (queue_list == NULL) {
-      return ERROR;
-    }
-    queue_head = 0;
-    queue_tail = 0;
-  }
-  
   /* do the env args before? */
   if (argv_process_env_b && (! argv_env_after_b) && env_vect_p != NULL) {
-    do_list(args, env_n, env_vect_p, queue_list, &queue_head, &queue_tail,
+    do_list(args, env_n, env_vect_p, &queue_list, &queue_head, &queue_tail,
 	    &okay_b);
     free(env_vect_p);
     free(environ_p);
@@ -3209,12 +3248,12 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   }
   
   /* do the external args */
-  do_list(args, arg_n - 1, argv + 1, queue_list, &queue_head, &queue_tail,
+  do_list(args, arg_n - 1, argv + 1, &queue_list, &queue_head, &queue_tail,
 	  &okay_b);
   
   /* DO the env args after? */
   if (argv_process_env_b && argv_env_after_b && env_vect_p != NULL) {
-    do_list(args, env_n, env_vect_p, queue_list, &queue_head, &queue_tail,
+    do_list(args, env_n, env_vect_p, &queue_list, &queue_head, &queue_tail,
 	    &okay_b);
     free(env_vect_p);
     free(environ_p);
@@ -3233,9 +3272,7 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   }
   
   /* if we allocated the space then free it */
-  if (arg_n > 0) {
-    free(queue_list);
-  }
+  free(queue_list);
   
   /* was there an error? */
   if (! okay_b) {
-- 
2.43.0


From 1f8e20105f37598a29708d111ac9a043cdba6a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:33 +0000
Subject: [PATCH 38/51] fix: argv: do not look behind the end of the option
 table

---
 libmy/argv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index a90a193..68eeed0 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1880,8 +1880,8 @@ static	int	check_or(const argv_t *args, const argv_t *which_p)
   if (match_p == NULL) {
     /* NOTE: we assume that which_p is not pointing now to ARGV_LAST */
     for (arg_p = which_p + 2;
-	 arg_p->ar_short_arg != ARGV_LAST
-	 && (arg_p - 1)->ar_short_arg != ARGV_LAST;
+	 (arg_p - 1)->ar_short_arg != ARGV_LAST
+	 && arg_p->ar_short_arg != ARGV_LAST;
 	 arg_p += 2) {
       if ((arg_p - 1)->ar_short_arg != ARGV_OR
 	  && (arg_p - 1)->ar_short_arg != ARGV_XOR) {
-- 
2.43.0


From 01d1b7e9b7acf67884b1ab4ed0567cd8ba8db6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:33 +0000
Subject: [PATCH 39/51] fix: argv: a negative number can not be the file
 argument

---
 libmy/argv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 68eeed0..e0390bd 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -2757,7 +2757,8 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	   * to Nick Kisseberth for pointing out this oversight.
 	   */
 	  if (char_c == 0 && is_number(*arg_p)
-	      && *queue_head_p > *queue_tail_p) {
+	      && *queue_head_p > *queue_tail_p
+	      && (*queue_list_p)[*queue_tail_p] != NULL) {
 	    
 	    match_p = (*queue_list_p)[*queue_tail_p];
 	    /*
-- 
2.43.0


From ca2cbc410e01dc07aa56ed60b0bf257294f37d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:33 +0000
Subject: [PATCH 40/51] fix: argv: free the arguments from the environment when
 they are not used

---
 libmy/argv.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index e0390bd..93294b2 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -3243,9 +3243,6 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   if (argv_process_env_b && (! argv_env_after_b) && env_vect_p != NULL) {
     do_list(args, env_n, env_vect_p, &queue_list, &queue_head, &queue_tail,
 	    &okay_b);
-    free(env_vect_p);
-    free(environ_p);
-    env_vect_p = NULL;
   }
   
   /* do the external args */
@@ -3256,11 +3253,12 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   if (argv_process_env_b && argv_env_after_b && env_vect_p != NULL) {
     do_list(args, env_n, env_vect_p, &queue_list, &queue_head, &queue_tail,
 	    &okay_b);
-    free(env_vect_p);
-    free(environ_p);
-    env_vect_p = NULL;
   }
   
+  /* free the env args, used or not */
+  free(env_vect_p);
+  free(environ_p);
+  
   /* make sure the XOR and MAND args and argument-options are okay */
   if (check_mand(args) != NOERROR) {
     okay_b = ARGV_FALSE;
-- 
2.43.0


From 9b70189506da48f035dda58bd87381d5d4a3d01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:16 +0000
Subject: [PATCH 41/51] fix: argv: do not cut the last character of an escape
 short

---
 libmy/argv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 93294b2..2fd8275 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -482,7 +482,7 @@ static	int	expand_buf(const void *buf, const int buf_size,
       if (out_p + 2 >= max_p) {
 	break;
       }
-      LOC_SNPRINTF(SNP_ARG(out_p, 2), "\\%c", *(spec_p - 1));
+      LOC_SNPRINTF(SNP_ARG(out_p, 3), "\\%c", *(spec_p - 1));
       out_p += 2;
       continue;
     }
@@ -499,7 +499,7 @@ static	int	expand_buf(const void *buf, const int buf_size,
       if (out_p + 4 >= max_p) {
 	break;
       }
-      LOC_SNPRINTF(SNP_ARG(out_p, 4), "\\%03o", *buf_p);
+      LOC_SNPRINTF(SNP_ARG(out_p, 5), "\\%03o", *buf_p);
       out_p += 4;
     }
   }
-- 
2.43.0


From a50b3db1bc7cb1ec6e846dd4ad38866502ee5167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:16 +0000
Subject: [PATCH 42/51] fix: argv: terminate the text of characters and strings

---
 libmy/argv.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libmy/argv.c b/libmy/argv.c
index 2fd8275..957c4d7 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1508,6 +1508,7 @@ static	int	value_to_string(const ARGV_PNT var, const unsigned int type,
     
   case ARGV_CHAR:
     len = expand_buf((char *)var, 1, buf, buf_size);
+    buf[len] = '\0';
     break;
     
   case ARGV_CHAR_P:
@@ -1518,6 +1519,7 @@ static	int	value_to_string(const ARGV_PNT var, const unsigned int type,
     }
     else {
       len = expand_buf(*(char **)var, -1, buf, buf_size);
+      buf[len] = '\0';
     }
     break;
     
-- 
2.43.0


From 5347038cec0cddc4abbde842f81da4c9800ae550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:16 +0000
Subject: [PATCH 43/51] fix: argv: write the text of zero within the buffer

---
 libmy/argv.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 957c4d7..060e4e3 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1624,7 +1624,7 @@ static	int	value_to_string(const ARGV_PNT var, const unsigned int type,
     
   case ARGV_HEX:
     if (*(int *)var == 0) {
-      (void)strcpy(buf, "0");
+      LOC_SNPRINTF(SNP_ARG(buf, buf_size), "0");
     }
     else {
       LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%#x (%d)",
@@ -1643,7 +1643,7 @@ static	int	value_to_string(const ARGV_PNT var, const unsigned int type,
       long	morf, val = *(long *)var;
       
       if (val == 0) {
-	(void)strcpy(buf, "0");
+	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "0");
       }
       else if (val % (1024 * 1024 * 1024) == 0) {
 	morf = val / (1024 * 1024 * 1024);
@@ -1670,7 +1670,7 @@ static	int	value_to_string(const ARGV_PNT var, const unsigned int type,
       unsigned long	morf, val = *(unsigned long *)var;
       
       if (val == 0) {
-	(void)strcpy(buf, "0");
+	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "0");
       }
       else if (val % (1024 * 1024 * 1024) == 0) {
 	morf = val / (1024 * 1024 * 1024);
-- 
2.43.0


From a44c6b9c26780d4731e44c67cbc847cbd8b600ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:16 +0000
Subject: [PATCH 44/51] fix: argv: the text of an unsigned size is unsigned

---
 libmy/argv.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 060e4e3..02dd3b8 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1674,18 +1674,18 @@ static	int	value_to_string(const ARGV_PNT var, const unsigned int type,
       }
       else if (val % (1024 * 1024 * 1024) == 0) {
 	morf = val / (1024 * 1024 * 1024);
-	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%ldg (%ld)", morf, val);
+	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%lug (%lu)", morf, val);
       }
       else if (val % (1024 * 1024) == 0) {
 	morf = val / (1024 * 1024);
-	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%ldm (%ld)", morf, val);
+	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%lum (%lu)", morf, val);
       }
       else if (val % 1024 == 0) {
 	morf = val / 1024;
-	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%ldk (%ld)", morf, val);
+	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%luk (%lu)", morf, val);
       }
       else {
-	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%ld", val);
+	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%lu", val);
       }
       
       len = strlen(buf);
-- 
2.43.0


From 484abfdd6f7f74a6c322b6289ef0f115c6a7bdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:42 +0000
Subject: [PATCH 45/51] fix: my_rate: adjust the rate without rounding it to
 whole events

A rate below 100 could only be adjusted downwards, and a rate of one event
per second was adjusted to zero, after which nothing was held back.
---
 libmy/my_rate.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libmy/my_rate.c b/libmy/my_rate.c
index 903bc22..4ab2edd 100644
--- a/libmy/my_rate.c
+++ b/libmy/my_rate.c
@@ -25,7 +25,8 @@
 struct my_rate {
 	struct timespec next_tick, period, start;
 	uint64_t	count;
-	unsigned	adj_rate, rate, freq;
+	double		adj_rate;
+	unsigned	rate, freq;
 };
 
 static inline int64_t
@@ -63,8 +64,7 @@ static inline void
 adjust_rate(struct my_rate *r, struct timespec *now)
 {
 	struct timespec elapsed;
-	double ratio;
-	unsigned actual_rate;
+	double actual_rate, ratio;
 
 	/* amount of time elapsed since first sleep */
 	elapsed = *now;
@@ -76,7 +76,7 @@ adjust_rate(struct my_rate *r, struct timespec *now)
 	actual_rate = r->count / (ts_nanos(&elapsed) / (1000000000 + 0.0));
 
 	/* simple ratio of nominal event rate and average event rate */
-	ratio = r->rate / (actual_rate + 0.0);
+	ratio = r->rate / actual_rate;
 
 	/* clamp this ratio to a small interval */
 	if (ratio < 0.99)
@@ -88,7 +88,7 @@ adjust_rate(struct my_rate *r, struct timespec *now)
 	r->adj_rate *= ratio;
 
 	/* calculate a new tick period based on the adjusted rate */
-	const double period = 1.0 / (r->adj_rate + 0.0);
+	const double period = 1.0 / r->adj_rate;
 	my_timespec_from_double(period, &r->period);
 }
 
-- 
2.43.0


From 7cc4e67d000da8c7ef4772ce9d7ad189c3e78889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:36 +0000
Subject: [PATCH 46/51] fix: zonefile: free the handle when the file can not be
 opened

---
 libmy/zonefile.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index eddaa8b..1104b0c 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -83,8 +83,10 @@ zonefile_init_fname(const char *fname)
 		z->fp = fopen(fname, "r");
 	}
 
-	if (z->fp == NULL)
+	if (z->fp == NULL) {
+		zonefile_destroy(&z);
 		return (NULL);
+	}
 
 	z->valid = true;
 	if (read_soa(z) != LDNS_STATUS_OK)
-- 
2.43.0


From 8aa029ff9696f0e43b9af3b9234fc7ddd8b443a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:36 +0000
Subject: [PATCH 47/51] fix: zonefile: free the origin set before the SOA
 record

---
 libmy/zonefile.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index 1104b0c..751a203 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -57,6 +57,8 @@ out:
 
 	z->count = 1;
 	z->domain = ldns_rdf_clone(ldns_rr_owner(rr));
+	if (z->origin)
+		ldns_rdf_deep_free(z->origin);
 	z->origin = ldns_rdf_clone(ldns_rr_owner(rr));
 	z->rr_soa = rr;
 	return (LDNS_STATUS_OK);
-- 
2.43.0


From ff6778641525077b20fcc9dc4397fd4ff05d37fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:36 +0000
Subject: [PATCH 48/51] fix: zonefile: keep the serial number when the SOA
 record is handed out

---
 libmy/zonefile.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index 751a203..73d20ef 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -20,6 +20,7 @@ struct zonefile {
 	ldns_rdf	*prev;
 	ldns_rr		*rr_soa;
 	uint32_t	ttl;
+	uint32_t	serial;
 	size_t		count;
 };
 
@@ -55,6 +56,10 @@ out:
 		return (LDNS_STATUS_ERR);
 	}
 
+	ldns_rdf *rdf = ldns_rr_rdf(rr, 2);
+	assert(rdf != NULL);
+	z->serial = ldns_rdf2native_int32(rdf);
+
 	z->count = 1;
 	z->domain = ldns_rdf_clone(ldns_rr_owner(rr));
 	if (z->origin)
@@ -135,9 +140,7 @@ zonefile_get_count(struct zonefile *z)
 uint32_t
 zonefile_get_serial(struct zonefile *z)
 {
-	ldns_rdf *rdf = ldns_rr_rdf(z->rr_soa, 2);
-	assert(rdf != NULL);
-	return (ldns_rdf2native_int32(rdf));
+	return (z->serial);
 }
 
 ldns_status
-- 
2.43.0


From 474c8fed0c1862ea001a6341f50518a086a1916f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:56 +0000
Subject: [PATCH 49/51] fix: my_rate: tick at multiples of the period also
 across whole seconds

With a rate whose period does not divide a second (3, 7, ...) a tick followed
right after the first one of each second, so that one more event than the rate
passed every second.
---
 libmy/my_rate.c | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/libmy/my_rate.c b/libmy/my_rate.c
index 4ab2edd..177bd73 100644
--- a/libmy/my_rate.c
+++ b/libmy/my_rate.c
@@ -36,27 +36,25 @@ ts_nanos(struct timespec *ts)
 }
 
 static inline struct timespec
-calc_next_tick(const struct timespec *t, const struct timespec *m)
+calc_next_tick(struct timespec *t, struct timespec *m)
 {
 	struct timespec res;
+	int64_t nanos, period;
 
-	res = *t;
-	if (m->tv_sec > 0) {
-		res.tv_sec -= (res.tv_sec % m->tv_sec);
-		res.tv_sec += m->tv_sec;
-	}
-	if (m->tv_nsec > 0) {
-		res.tv_nsec -= (res.tv_nsec % m->tv_nsec);
-		res.tv_nsec += m->tv_nsec;
-	} else {
-		res.tv_nsec = 0;
-	}
+	nanos = ts_nanos(t);
+	period = ts_nanos(m);
 
-	while (res.tv_nsec >= 1000000000) {
-		res.tv_sec += 1;
-		res.tv_nsec -= 1000000000;
+	/* the ticks are the multiples of the period. they are not aligned to
+	 * the whole seconds, which the period may not divide.
+	 */
+	if (period > 0) {
+		nanos -= nanos % period;
+		nanos += period;
 	}
 
+	res.tv_sec = nanos / 1000000000;
+	res.tv_nsec = nanos % 1000000000;
+
 	return (res);
 }
 
-- 
2.43.0


From 160c93e7b2df53818ebde45065d6dfff8d56ca50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:18 +0000
Subject: [PATCH 50/51] fix: getenv_int: an empty value is not a number

---
 libmy/getenv_int.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/getenv_int.h b/libmy/getenv_int.h
index 4576116..f3548a8 100644
--- a/libmy/getenv_int.h
+++ b/libmy/getenv_int.h
@@ -14,7 +14,7 @@ getenv_int(const char *name, uint64_t *value) {
 		return (false);
 
 	*value = strtoul(s, &t, 0);
-	if (*t != '\0')
+	if (t == s || *t != '\0')
 		return (false);
 	return (true);
 }
-- 
2.43.0


From e1726250b0e1331667e6b146e7896e1952ab16c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:18 +0000
Subject: [PATCH 51/51] fix: print_string: escape the backslash as well as the
 quote

---
 libmy/print_string.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmy/print_string.h b/libmy/print_string.h
index 3b04913..989b3ef 100644
--- a/libmy/print_string.h
+++ b/libmy/print_string.h
@@ -29,8 +29,8 @@ print_string(const void *data, size_t len, FILE *out)
 	while (len-- != 0) {
 		unsigned c = *(str++);
 		if (isprint(c)) {
-			if (c == '"')
-				fputs("\\\"", out);
+			if (c == '"' || c == '\\')
+				fprintf(out, "\\%c", c);
 			else
 				fputc(c, out);
 		} else {
-- 
2.43.0

