"""The properties: generates properties.jsonl and MANIFEST.json (python3 vf/spec.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS
S = []


def S_(pid, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=pid, title=title, statement=statement, quantifier=dict(over=over.split(), text=qtext), why_tests_cant=why,
             anchors=dict(files=files.split(), mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    S.append(d)


I = 'inputs'
S_('P01', 'Parsing any packet is memory safe and terminates',
   'Parsing any sequence of octets as a DNS message terminates, reads nothing outside the packet, uses no uninitialised value and does no undefined arithmetic. The packet itself is not modified. On success every length and pointer in the result describes memory the result owns.',
   I, 'every packet, including truncated, looping and maximal ones', 'the tests parse a handful of well-formed captures; an overrun needs a particular truncation, pointer or length octet, and mostly stays invisible without a checker',
   'wdns/parse_message.c wdns/parse_message_rr.c wdns/parse_rdata.c wdns/parse_header.c wdns/parse_edns.c wdns/unpack_name.c wdns/insert_rr_rrset_array.c',
   [('bounds checks before each read', 'wdns/parse_message_rr.c, wdns/parse_rdata.c, wdns/unpack_name.c'), ('advance/len accounting', 'wdns/wdns-private.h')], ['wdns_parse_message'])
S_('P02', 'Name decompression is exactly RFC 1035 decoding',
   'For every packet and start offset, decompressing a name either yields the exact uncompressed name of at most 255 octets and the number of octets it took in the packet, or reports an error. It terminates on every chain of compression pointers and reads and writes nothing outside the packet and a 255-octet output.',
   I, 'every packet content and start offset, every label and pointer structure up to the 255-octet limit', 'the tests cover a few fixed packets; the guarantee is about all pointer graphs and all lengths around the limits',
   'wdns/unpack_name.c', [('pointers must go backwards; total length limit', 'wdns/unpack_name.c: wdns_unpack_name')], ['wdns_unpack_name'])
S_('P03', 'The name scanners agree with the name decoder',
   'Skipping, measuring and copying an uncompressed name each accept the well-formed names, report the same length as decoding does, and reject what is not a complete name within the data given. None of them reads or writes outside its buffers.',
   I, 'every buffer and start position', 'agreement of independent implementations over all octet strings, in particular truncated ones, is beyond sample tests',
   'wdns/skip_name.c wdns/len_uname.c wdns/copy_uname.c wdns/unpack_name.c', [('label walks with end-of-data checks', 'wdns/skip_name.c, wdns/len_uname.c, wdns/copy_uname.c')], ['wdns_skip_name', 'wdns_len_uname', 'wdns_copy_uname'])
S_('P04', 'A parsed message is faithful to the packet',
   'A message is accepted exactly when header, question and records are well formed, and then the id, flags, opcode and rcode are those of the header and each section holds exactly the records of the packet: owner, type, class, TTL, section and order.',
   I, 'every packet', 'the tests look at the text of a few captures; mixing up a section, a flag or a count for some other shape of message is not seen',
   'wdns/parse_message.c wdns/parse_message_rr.c wdns/parse_header.c wdns/insert_rr_rrset_array.c wdns/wdns.h.in', [('section loop over header counts', 'wdns/parse_message.c'), ('header macros', 'wdns/wdns.h.in')], ['wdns_parse_message', 'wdns_message_t'])
S_('P05', 'EDNS is extracted exactly as RFC 6891 says',
   'When a message holds an OPT record, its payload size, version, flags, extended response code and options are those of that record and the record is in no section; a message without one reports no EDNS. The response code combines the upper bits of the OPT record with the four of the header.',
   I, 'every OPT record (class, TTL, rdata), position and number of them', 'the tests have one or two OPT records with zero extended bits',
   'wdns/parse_edns.c wdns/parse_message.c', [('OPT handling', 'wdns/parse_edns.c, wdns/parse_message.c')], ['wdns_parse_message', 'wdns_message_t.edns'])
S_('P06', 'Records are grouped into RRsets without loss',
   'Within a section, records with the same owner (ignoring ASCII case), type and class form one RRset whose rdata are all of theirs in packet order, and records that differ in any of these are never merged; the TTL of an RRset is the lowest of its records. No record is lost or duplicated.',
   'inputs histories', 'every sequence of records in a section', 'grouping depends on the whole sequence of records; the tests have short fixed ones',
   'wdns/insert_rr_rrset_array.c wdns/compare_rr_rrset.c wdns/parse_message.c', [('search of existing sets', 'wdns/insert_rr_rrset_array.c')], ['wdns_parse_message', 'wdns_rrset_array_t'])
S_('P07', 'Record data is validated and expanded per type',
   'For each known type the data of a record is accepted exactly when it consists of the fields its RFC lays down (names, addresses, strings, bitmaps, service parameters) and then stored with compressed names expanded and everything else unchanged; data of unknown types or classes is stored verbatim. Data whose expansion exceeds 65535 octets is rejected.',
   I, 'every type, class and rdata content', 'each type has one or two test vectors; validation errors sit in lengths and edge values no vector has',
   'wdns/parse_rdata.c wdns/record_descr.c', [('field interpreter over the record descriptors', 'wdns/parse_rdata.c: _wdns_parse_rdata'), ('descriptors', 'wdns/record_descr.c')], ['wdns_parse_message', 'wdns_rdata_t'])
S_('P08', 'Parsing leaks nothing and clearing is idempotent',
   'However a parse ends, everything it allocated is either reachable from the returned message or freed; clearing the message frees all of it exactly once. Clearing again, or clearing after a failed parse, does nothing.',
   'inputs histories', 'every packet, in particular those rejected at each possible point', 'leaks and double frees on error paths are invisible to tests that check only results',
   'wdns/parse_message.c wdns/clear.c wdns/parse_edns.c wdns/insert_rr_rrset_array.c', [('cleanup on error', 'wdns/parse_message.c'), ('clear functions', 'wdns/clear.c')], ['wdns_parse_message', 'wdns_clear_message'])
S_('P09', 'Deserialising an RRset is safe and all or nothing',
   'Any octets given to RRset deserialisation are accepted exactly when they begin with a complete serialised RRset, which is then returned exactly. Otherwise an error is returned, nothing is left allocated, and nothing outside the input is read.',
   I, 'every octet string', 'serialised data may be stored or received, hence arbitrary; the tests only feed valid ones',
   'wdns/deserialize_rrset.c wdns/clear.c', [('length check before each copy', 'wdns/deserialize_rrset.c: copy_bytes')], ['wdns_deserialize_rrset', 'wdns_clear_rrset'])
S_('P10', 'Serialising and deserialising an RRset are inverse',
   'For every RRset the serialised size reported equals the octets written, and deserialising them gives back an RRset equal in owner, type, class, TTL and rdata in order. Serialising does not change the RRset.',
   I, 'every RRset: owner, type, class, TTL, number, lengths and content of rdata', 'the tests serialise a few RRsets; sizes, counts and empty data at the extremes are not among them',
   'wdns/serialize_rrset.c wdns/deserialize_rrset.c', [('size and layout code', 'wdns/serialize_rrset.c')], ['wdns_serialize_rrset', 'wdns_deserialize_rrset'])
S_('P11', 'Name to text never overruns and always terminates its text',
   'Converting any octets with a length of at most 255 to the text of a name reads no octet beyond that length, and writes a NUL-terminated text within the documented maximum size. The number of octets reported is what was consumed.',
   I, 'all octet strings, well formed or not', 'text conversion is called on untrusted names; overruns depend on content (escapes) and length together',
   'wdns/domain_to_str.c', [('escaping', 'wdns/domain_to_str.c')], ['wdns_domain_to_str'])
S_('P12', 'Name to text to name is the identity',
   'Every well-formed name converted to text and back, keeping case, is the same name octet for octet, and with folding it is the lower-case of that name.',
   I, 'every well-formed name, with every octet value in labels', 'escapes depend on each octet value and position; the tests sample a few names',
   'wdns/domain_to_str.c wdns/str_to_name.c', [('escaping and unescaping', 'wdns/domain_to_str.c, wdns/str_to_name.c')], ['wdns_domain_to_str', 'wdns_str_to_name', 'wdns_str_to_name_case'])
S_('P13', 'Text is accepted as a name exactly when it denotes one',
   'Every text is either rejected, with nothing allocated, or converted to exactly the valid name it denotes: escapes decoded, labels of 1 to 63 octets, at most 255 octets in all, terminated by the root. The folding variant gives lower-case letters, the other keeps case.',
   I, 'every text, including malformed escapes and lengths around the limits', 'input text comes from users; the limits and malformed escapes have no tests',
   'wdns/str_to_name.c', [('parser', 'wdns/str_to_name.c')], ['wdns_str_to_name', 'wdns_str_to_name_case'])
S_('P15', 'Folding a name folds ASCII letters and nothing else',
   'Folding a name replaces exactly the octets A-Z by a-z, in place, for every content and length up to 255, and touches nothing beyond the name. Applying it twice gives the same result as once.',
   I, 'every name content and length', 'the code may work on several octets at once; errors show for specific octets at specific positions',
   'wdns/downcase_name.c', [('loop over the octets', 'wdns/downcase_name.c')], ['wdns_downcase_name'])
S_('P16', 'Canonical folding of rdata folds exactly the embedded names',
   'Folding the data of a record of a type listed by RFC 4034 6.2 folds the letters of its embedded names and nothing else, and leaves other types alone; folding a set of records folds its owner name and each of its records so. On malformed data no octet outside it is read or written.',
   I, 'every type, class and rdata content', 'tests fold a few records; which octets belong to a name depends on every length octet before it',
   'wdns/downcase_rdata.c wdns/downcase_rrset.c', [('field walk per type', 'wdns/downcase_rdata.c')], ['wdns_downcase_rdata', 'wdns_downcase_rrset'])
S_('P17', 'The subdomain test is label-wise suffix comparison',
   'One name is reported to be at or below another exactly when its last labels are the labels of the other. Neither name is changed, and nothing outside either is read, whatever octets they hold.',
   I, 'every pair of names', 'false positives need octets inside a label that look like the other name; sample tests do not have them',
   'wdns/is_subdomain.c', [('suffix search by label', 'wdns/is_subdomain.c')], ['wdns_is_subdomain'])
S_('P18', 'Counting, chopping and reversing labels are exact',
   'For every well-formed name the label count is right, removing the first label leaves the name of the rest, and reversing gives the labels in opposite order, so that reversing twice is the identity. Removing the first label of any octets leaves exactly what follows it and is refused when the label is incomplete. Malformed names are rejected or handled without reading or writing outside them.',
   I, 'every name, well formed or not', 'the tests have a few names and no malformed ones',
   'wdns/count_labels.c wdns/left_chop.c wdns/reverse_name.c', [('label walks', 'wdns/count_labels.c, wdns/left_chop.c, wdns/reverse_name.c')], ['wdns_count_labels', 'wdns_left_chop', 'wdns_reverse_name'])
S_('P19', 'A record belongs to an RRset exactly when the key matches',
   'A record compares equal to an RRset exactly when type and class are equal and the owners are equal ignoring the case of ASCII letters; TTL and data play no part. The comparison changes neither.',
   I, 'every pair of owners, types and classes', 'case-insensitive comparison is wrong for particular octets or positions only, which samples miss',
   'wdns/compare_rr_rrset.c', [('comparison', 'wdns/compare_rr_rrset.c')], ['wdns_compare_rr_rrset'])
S_('P20', 'Sorting an RRset sorts it and keeps its data',
   'Sorting leaves the RRset with the same collection of rdata, in canonical (octet-wise, shorter first) order, and its owner, type, class and TTL unchanged. It is deterministic: any order of the same data sorts to the same result.',
   'inputs histories', 'every collection of rdata in every order', 'an inconsistent comparison shows only for particular contents and orders',
   'wdns/sort_rrset.c', [('comparison function and qsort', 'wdns/sort_rrset.c')], ['wdns_sort_rrset'])
S_('P21', 'Any rdata can be rendered as text safely',
   'Rendering any octets as the text of any type and class terminates, reads nothing outside them, uses no uninitialised value, leaks nothing and returns a terminated text. A field of a known type that is malformed or cut short is marked as a parse error, and well-formed data is not.',
   I, 'every type, class and content, well formed or not', 'callers render data that was not validated, so every truncation of every type matters; the tests render valid data',
   'wdns/rdata_to_ubuf.c wdns/rdata_to_str.c wdns/record_descr.c wdns/svcparamkeys_to_str.c', [('bounds checks per field', 'wdns/rdata_to_ubuf.c')], ['wdns_rdata_to_str'])
S_('P22', 'Rdata survives a round trip through its text',
   'For well-formed data of every known type, the text shows each field in the presentation format of its kind (names, decimal numbers, addresses, quoted strings with escapes, hexadecimal, base64, base32hex, type lists, service parameters), separated by one space. That text is accepted by the text parser for that type and class and gives back exactly the same octets.',
   I, 'every known type and every well-formed content', 'the tests have one or two values per type; values that need escaping, padding or special formatting are not among them',
   'wdns/rdata_to_ubuf.c wdns/str_to_rdata_ubuf.c wdns/record_descr.c', [('rendering and parsing per field', 'wdns/rdata_to_ubuf.c, wdns/str_to_rdata_ubuf.c')], ['wdns_rdata_to_str', 'wdns_str_to_rdata'])
S_('P23', 'Parsing any rdata text is safe and all or nothing',
   'Any text given as the data of any type terminates with either data that depends on the text alone or an error with nothing returned, and leaks nothing. No octet outside the text is read and no uninitialised octet is ever returned. Each field present has exactly the value its text denotes, and a text with a field that is not in its format (number out of range, bad digit, address, name, string or escape) is refused.',
   I, 'every type, class and text', 'text comes from users; malformed text for each of the field kinds has no tests',
   'wdns/str_to_rdata_ubuf.c wdns/record_descr.c wdns/str_to_name.c', [('field parsers', 'wdns/str_to_rdata_ubuf.c')], ['wdns_str_to_rdata'])
S_('P24', 'The generic rdata format carries any data',
   'Data of any type or class without a specific format is rendered in the generic RFC 3597 format, and that text gives back exactly the data. A generic text is accepted exactly when its declared length and its hexadecimal octets agree.',
   I, 'every type, class, length and content', 'the tests have a few generic records; mismatched and malformed lengths are not among them',
   'wdns/rdata_to_ubuf.c wdns/str_to_rdata_ubuf.c', [('generic format', 'wdns/rdata_to_ubuf.c, wdns/str_to_rdata_ubuf.c')], ['wdns_rdata_to_str', 'wdns_str_to_rdata'])
S_('P25', 'SVCB and HTTPS text becomes well-formed wire data',
   'Every service binding text that is accepted yields wire data in which each parameter has the key named, the exact length of its value and the value given, and which the message parser accepts unchanged. Unknown keys, missing or superfluous values, numbers out of range, empty or over-long alpn ids and bad addresses are refused.',
   I, 'every list of parameters and values', 'the value syntax of each key has many malformed forms; tests have a few valid ones',
   'wdns/str_to_rdata_ubuf.c wdns/parse_rdata.c wdns/svcparamkeys_to_str.c', [('parameter parser', 'wdns/str_to_rdata_ubuf.c')], ['wdns_str_to_rdata', 'wdns_parse_message'])
S_('P26', 'Type and class mnemonics are a bijection with a generic fallback',
   'Every type and class known has its registered name, which maps back to the same number in any mixture of cases, and every other number has no name. A text is accepted as a type or class exactly when it is such a name or TYPE or CLASS directly followed by decimal digits of a value up to 65535, and gives that number; anything else gives 0, and nothing outside the text is read.',
   I, 'all 65536 types and classes, all texts', 'a table of hundreds of entries with hand-written parsing; tests sample it',
   'wdns/gen_rrtype_to_str wdns/gen_rrclass_to_str wdns/wdns.h.in', [('tables and parsers', 'wdns/gen_rrtype_to_str, wdns/gen_rrclass_to_str')], ['wdns_rrtype_to_str', 'wdns_str_to_rrtype', 'wdns_rrclass_to_str', 'wdns_str_to_rrclass'])
S_('P27', 'Codes have stable, distinct names and the version is consistent',
   'Every operation code, result code and response code has the name the standards or the header give it or none, and distinct codes have distinct names. The name of a response code maps back to it in any mixture of cases, and any other text is refused without touching the result. The version reported at run time, as text and as a number, equals that of the header.',
   I, 'every integer value, every text', 'index errors show only for values at the ends of the tables',
   'wdns/opcode_to_str.c wdns/res_to_str.c wdns/gen_rcode_to_str wdns/version.c', [('switches and tables', 'wdns/res_to_str.c, wdns/gen_rcode_to_str, wdns/opcode_to_str.c')], ['wdns_opcode_to_str', 'wdns_res_to_str', 'wdns_rcode_to_str', 'wdns_str_to_rcode', 'wdns_get_version'])
S_('P28', 'Base64 encoding and decoding are exact inverses',
   'Encoding gives the RFC 4648 text of every octet string, in whatever pieces it is fed, and decoding that text gives the octets back. Decoding arbitrary text reads no table or buffer out of range and writes no more than the documented size.',
   'inputs histories', 'every octet string, every split into pieces, every text', 'padding, state across pieces and characters outside the alphabet are each special cases tests sample thinly',
   'libmy/b64_encode.c libmy/b64_decode.c', [('state machines', 'libmy/b64_encode.c, libmy/b64_decode.c')], ['base64_encode_block', 'base64_decode_block'])
S_('P29', 'Base32hex encoding and decoding are exact inverses',
   'Encoding gives the RFC 4648 extended-hex text of every octet string and decoding that text, in either case, gives the octets back. Decoding arbitrary text rejects characters outside the alphabet and writes nothing outside the output.',
   I, 'every octet string and text', 'partial groups and invalid characters have no tests',
   'libmy/b32_encode.c libmy/b32_decode.c', [('bit packing', 'libmy/b32_encode.c, libmy/b32_decode.c')], ['base32_encode', 'base32_decode'])
S_('P30', 'Numbers are formatted exactly',
   'Formatting any unsigned integer in decimal gives its digits without leading zeros, right-aligned in the buffer and terminated, and leaves the rest of the buffer alone. Formatting octets in hexadecimal gives two digits for each octet that fits within the stated buffer size.',
   I, 'every integer of each width; every octet string and buffer size', 'digit-count boundaries and leading zeros are exhaustive claims over 32 and 64 bits',
   'libmy/my_format.c libmy/my_format.h', [('digit loops', 'libmy/my_format.c')], ['my_uint64_to_str', 'my_bytes_to_hex_str', 'my_uint16_to_hex_str'])
S_('P31', 'Addresses are formatted exactly',
   'Formatting any IPv4 or IPv6 address gives its canonical text, the same as the C library, and never writes beyond the size given; too small a buffer is reported.',
   I, 'every address and buffer size', 'the compression of zeros has many cases; tests have a few addresses',
   'libmy/fast_inet_ntop.c', [('formatters', 'libmy/fast_inet_ntop.c')], ['fast_inet4_ntop', 'fast_inet6_ntop'])
S_('P32', 'EDNS options are rendered safely and exactly',
   'EDNS option data is rendered as one line per option that shows the option and its data as the format for its code documents (client subnet, extended error, other), alone and in the text of a message. Malformed data is marked, after what precedes it. Nothing outside the data is read.',
   I, 'every option list', 'options are attacker-controlled and rendered without validation; tests have a few well-formed ones',
   'wdns/edns_options.c wdns/message_to_str.c', [('option loop', 'wdns/edns_options.c')], ['wdns_message_to_str'])
S_('P33', 'Growable buffers hold exactly what was appended',
   'A growable buffer or vector holds exactly the elements appended, reserved, advanced, detached and cleared by any sequence of operations, and never writes outside its storage.',
   'histories', 'every sequence of operations and sizes around each growth step', 'growth errors need a particular sequence of sizes',
   'libmy/vector.h libmy/ubuf.h wdns/buf.h', [('reserve/append/advance', 'libmy/vector.h, libmy/ubuf.h')], ['VECTOR_GENERATE', 'ubuf_append'])
S_('P34', 'Messages, RRsets and records are rendered completely and safely',
   'The text of a message, section, RRset or record contains exactly one line per record with its owner, TTL, class, type and data in presentation format, for every value these may take, and nothing is leaked or read out of bounds. A record of the question shows no TTL and no data.',
   I, 'every message structure', 'tests print a few messages; empty sections, unknown codes and empty data are not among them',
   'wdns/message_to_str.c wdns/rrset_to_ubuf.c wdns/rrset_array_to_ubuf.c wdns/rr_to_ubuf.c wdns/rr_to_str.c wdns/rrset_to_str.c wdns/rrset_array_to_str.c wdns/print_message.c', [('text assembly', 'wdns/message_to_str.c, wdns/rrset_to_ubuf.c')], ['wdns_message_to_str', 'wdns_rrset_to_str', 'wdns_rrset_array_to_str', 'wdns_rr_to_str', 'wdns_print_message'])
S_('P35', 'Loading names from a file delivers each name once, in order',
   'Loading a file of names calls back once per name line, in order, with the name it denotes, skips comment and blank lines, stops with an error at the first bad line and always closes the file. No content, including NUL octets and over-long lines, makes it access memory outside its buffers.',
   I, 'every file content', 'file content is arbitrary; tests have no malformed files',
   'wdns/file_load_names.c wdns/str_to_name.c', [('line loop', 'wdns/file_load_names.c')], ['wdns_file_load_names'])
S_('P36', 'Variable-length integers encode and decode exactly',
   'Every 32- and 64-bit integer is encoded in the number of octets announced, decodes to itself, and its length can be told from its octets; decoding does not read beyond the encoding or the limit given.',
   I, 'every integer; every octet string', 'boundaries at each multiple of seven bits, for all values',
   'libmy/varint.c libmy/varint.h', [('encoders, decoders', 'libmy/varint.c')], ['varint_encode32', 'varint_encode64', 'varint_decode32', 'varint_decode64', 'varint_length_packed'])
S_('P37', 'Address prefix arithmetic is exact',
   'For every IPv4 and IPv6 address and prefix length, including 0 and the full width, the lowest and highest address of the prefix are right, and incrementing an address is exact with carry and reports wrap-around as documented.',
   I, 'every address and prefix length', 'shift widths at the extremes are undefined behaviour that may pass by chance',
   'libmy/ip_arith.h', [('masks and carries', 'libmy/ip_arith.h')], ['ip4_lower', 'ip4_upper', 'ip4_incr', 'ip6_lower', 'ip6_upper', 'ip6_incr'])
S_('P38', 'The heap always yields the smallest element',
   'After any sequence of additions, removals and replacements the top of the heap is a smallest element, and removing or replacing it yields exactly that element; the heap holds exactly the elements added and not yet removed. An empty heap, and positions beyond the contents, yield nothing.',
   'histories', 'every sequence of operations and keys', 'heap order is an invariant over histories',
   'libmy/heap.c', [('sift up and down', 'libmy/heap.c')], ['heap_push', 'heap_pop', 'heap_replace', 'heap_peek', 'heap_get', 'heap_size'])
S_('P39', 'The queue passes every element once, in order, between two threads',
   'Between one producer and one consumer thread every element inserted is removed exactly once, in order and unaltered, under every interleaving; a full queue refuses, an empty one yields nothing, and the space reported is right.',
   'schedules histories', 'every interleaving of one producer and one consumer', 'races appear in particular interleavings only',
   'libmy/my_queue.c libmy/my_queue_mb.c libmy/my_queue_mutex.c', [('head and tail with barriers or a mutex', 'libmy/my_queue_mb.c, libmy/my_queue_mutex.c')], ['my_queue_insert', 'my_queue_remove'])
S_('P40', 'The checksum is CRC-32C at every length and alignment',
   'The portable checksum of any octets, wherever they lie, is the CRC-32C (Castagnoli) of those octets.',
   I, 'every octet string and alignment', 'the sliced implementation treats head, body and tail differently; tests have a few vectors',
   'libmy/crc32c-slicing.c libmy/crc32c-sse42.c libmy/crc32c.c', [('table slices', 'libmy/crc32c-slicing.c'), ('CRC32 instruction', 'libmy/crc32c-sse42.c')], ['my_crc32c'])
S_('P41', 'The hash depends on content alone',
   'The hash of a key depends only on its octets, length and seed, never on where it lies in memory or what follows it, and reads nothing outside the aligned words of the key.',
   I, 'every key, length, alignment and seed', 'the code has a path per alignment; a difference shows only for particular lengths',
   'libmy/lookup3.c libmy/lookup3.h', [('a path per alignment', 'libmy/lookup3.c: hashlittle')], ['my_hashlittle'])
S_('P42', 'Small text and time helpers are exact',
   'Hexadecimal decoding accepts exactly non-empty strings of hexadecimal digit pairs and yields their octets; replacing strings replaces every occurrence of a non-empty text, from the left, and nothing else; sums, differences and conversions of times are exact and normalised for every normalised time and every non-negative number of seconds below 2^53. None of them accesses memory outside its arguments.',
   I, 'every argument', 'helpers are used everywhere with arbitrary data and have no tests of their own',
   'libmy/hex_decode.h libmy/string_replace.h libmy/my_time.h', [('the helpers', 'libmy/hex_decode.h, libmy/string_replace.h, libmy/my_time.h')], ['hex_decode', 'string_replace', 'my_timespec_add', 'my_timespec_sub'])
S_('P43', 'Independent calls may run in different threads',
   'Two threads that use the library at the same time, on separate data or on the same objects that neither modifies, each get the results they get alone, under every interleaving, including the first uses in the process.',
   'schedules', 'every interleaving of two calls', 'a race on first use has a window of a few instructions',
   'libmy/b32_decode.c libmy/b64_decode.c wdns/str_to_rdata_ubuf.c wdns/rrtype_to_str.c wdns/message_to_str.c', [('no shared mutable state', 'libmy/b32_decode.c, libmy/b64_decode.c, wdns/*.c')], ['wdns_str_to_rdata', 'wdns_message_to_str', 'wdns_parse_message', 'base32_decode'])
S_('P44', 'A captured packet yields exactly its message',
   'For any captured packet, the dump tool reads nothing beyond the captured octets; an IPv4 packet with whole headers and at least a message header passes exactly the octets of its payload to the parser, and is printed if they are a message, else written out as it was; every other packet is passed over.',
   I, 'every packet of every length', 'captures come from anywhere, cut at any length',
   'examples/wdns-dump-pcap.c', [('the packet handler', 'examples/wdns-dump-pcap.c: packet_handler')], ['packet_handler'])
S_('P45', 'Trees and lists hold exactly what was put in',
   'After any sequence of operations a red-black or splay tree holds the elements put in and not taken out, each key once, in order, and lookups, neighbours, first and last are right; a red-black tree stays balanced; a doubly linked list holds the sequence its operations make, forward and backward.',
   'histories', 'every sequence of operations and keys', 'rebalancing has many mirrored cases, each reached by particular shapes only',
   'libmy/tree.h libmy/list.h', [('rotations and colour fixes', 'libmy/tree.h'), ('link updates', 'libmy/list.h')], ['RB_INSERT', 'RB_REMOVE', 'SPLAY_INSERT', 'SPLAY_REMOVE', 'ISC_LIST_UNLINK', 'ISC_LIST_INSERTBEFORE'])
S_('P46', 'A file set holds exactly the listed files, each loaded once',
   'After a reload of a changed set file the entries are exactly the listed files that exist, each once, ordered by name; files already loaded stay loaded and are not loaded again, others are unloaded exactly once; a reload does nothing if the set file is unchanged or cannot be read, and a later one catches up; in the end everything loaded is unloaded once.',
   'histories', 'every history of set files', 'the effect of a reload depends on the ones before',
   'libmy/my_fileset.c', [('keep, load, unload', 'libmy/my_fileset.c: my_fileset_reload')], ['my_fileset_reload', 'my_fileset_get', 'my_fileset_destroy'])
S_('P47', 'A spool directory hands out each file once',
   'Every plain, not hidden file of the incoming directory is moved to the active directory and handed out exactly once, to one thread, under every interleaving and whatever operation fails; nothing else is moved or removed, except an older active file of the same name, and no file is lost.',
   'schedules faults', 'every interleaving and failing operation', 'the races and failures are rare and depend on timing',
   'libmy/spooldir.c', [('scan and move under a lock', 'libmy/spooldir.c: spooldir_next')], ['spooldir_init', 'spooldir_next', 'spooldir_destroy'])
S_('P48', 'Command-line arguments set exactly the variables they name',
   'argv_process_no_env accepts a list of arguments exactly when the option table permits it (known options, a value where one is needed, exclusive and mandatory groups respected), sets the variable of every option that is given to the value given and no other variable, collects repeated values in order, reports what was given, and afterwards frees all it allocated; options from a file or the environment count as if they were listed at their place.',
   I, 'every argument list and option table', 'short options, groups of them, attached and separate values, abbreviations and groups combine freely',
   'libmy/argv.c libmy/argv.h', [('options, values and groups', 'libmy/argv.c: argv_process_no_env'), ('queue of options that wait for a value', 'libmy/argv.c: queue_arg'), ('arguments from the environment and files', 'libmy/argv.c: process_env, file_args')], ['argv_process_no_env', 'argv_was_used', 'argv_long_was_used', 'argv_entry_was_used', 'argv_cleanup'])
S_('P49', 'Values of options convert exactly from and to text',
   'The text of a number, size, character or string option is converted to exactly the value it denotes, a value is written as exactly its text (cut off at the end of the buffer, always terminated, never beyond it), and copying the arguments into a buffer yields the arguments joined by spaces, cut off at its end.',
   I, 'every text and value', 'units, escapes and cuts at every buffer size',
   'libmy/argv.c', [('text to value', 'libmy/argv.c: string_to_value'), ('value to text', 'libmy/argv.c: argv_value_string')], ['argv_process_no_env', 'argv_value_string', 'argv_copy_args'])
S_('P50', 'A rate limiter lets one event through per tick',
   'my_rate_sleep sleeps until the next tick of the nominal period and not at all if it is past, so that two events never return within the same tick; it never sleeps beyond the next tick; with adjustment, the period stays positive and changes by at most a hundredth at a time, in the direction that brings the rate nearer to the nominal one.',
   'schedules', 'every history of times', 'arrival times and floating-point rounding take values no test samples',
   'libmy/my_rate.c libmy/my_time.h', [('ticks', 'libmy/my_rate.c: calc_next_tick'), ('adjustment', 'libmy/my_rate.c: adjust_rate'), ('time arithmetic', 'libmy/my_time.h: my_timespec_sub, my_timespec_from_double')], ['my_rate_init', 'my_rate_sleep', 'my_rate_destroy'])
S_('P51', 'A zone file yields each record once, in order',
   'A zone file opens exactly when its first record is a start of authority; then every record from that one to the end (or to the next start of authority) is handed out once and in order, directives and empty lines are skipped, bad lines are reported, the name, serial number and count are right at any time, and the file is closed and all memory freed once, wherever reading stops.',
   'histories faults', 'every sequence of lines and point at which reading stops', 'the order of directives, errors and the end, and the failures, are more than tests sample',
   'libmy/zonefile.c', [('reading', 'libmy/zonefile.c: zonefile_read, read_soa'), ('opening and closing', 'libmy/zonefile.c: zonefile_init_fname, zonefile_destroy')], ['zonefile_init_fname', 'zonefile_read', 'zonefile_get_serial', 'zonefile_get_domain', 'zonefile_get_count', 'zonefile_destroy'])
S_('P52', 'Each registered thread has a number of its own',
   'Every thread that registers gets the next number, from zero on; no number is given twice, under every interleaving, and a thread keeps its number whatever other threads do.',
   'schedules', 'every interleaving of registrations', 'a lost update needs a switch within a few instructions',
   'libmy/threadnum.c', [('counter under a lock, number in thread-local storage', 'libmy/threadnum.c: my_threadnum_register')], ['my_threadnum_register', 'my_threadnum'])
S_('P53', 'Reading, waiting and printing octets are complete',
   'read_bytes delivers exactly the octets wanted, in order, across short reads and interruptions, and fails exactly at the end of the data or an error; my_nanosleep waits the whole time across interruptions; getenv_int accepts exactly the texts that are numbers; print_string prints any octets between quotes so that they can be read back.',
   'inputs faults', 'every input, short read, interruption and error', 'short reads and interruptions do not happen in tests',
   'libmy/read_bytes.h libmy/my_time.h libmy/getenv_int.h libmy/print_string.h', [('reading', 'libmy/read_bytes.h: read_bytes'), ('waiting', 'libmy/my_time.h: my_nanosleep'), ('numbers', 'libmy/getenv_int.h: getenv_int'), ('escapes', 'libmy/print_string.h: print_string')], ['read_bytes', 'my_nanosleep', 'getenv_int', 'print_string'])
NA = {}
DEF_NOTE = 'Bounded model checking: the solver decides every path of the real code for all inputs within the bounds named in the evidence file; nothing is claimed beyond them. Trusted: clang 18 -O0 bitcode, the vsym engine and Z3, the C models of libc (cross-checked by replaying sampled paths natively), malloc not failing.'
CBMC_NOTE = 'Bounded model checking with CBMC of the real C source within the bounds named in the evidence file; nothing is claimed beyond them. Trusted: CBMC 6.11 and its SAT solver, its C semantics and library models.'


def main():
    have = [s for s in S if s['id'] in PROPS or s['id'] in NA]
    checks = []
    for s in have:
        p = s['id']
        if p not in PROPS: continue
        engines = {c.get('engine', 'vsym') for c in PROPS[p]['configs']}
        vs = 'vsym' in engines
        checks.append(dict(property=p, quick_cmd='python3 vf/check.py ' + p, thorough_cmd='python3 vf/check.py %s --tier thorough' % p,
                           technique=('symbolic execution of the LLVM bitcode of the real code, Z3' if vs else '') + (' + ' if len(engines) > 1 else '') + ('CBMC bounded model checking of the real C source' if 'cbmc' in engines else ''),
                           level='other' if engines == {'cbmc'} else 'model_checking',
                           level_note=DEF_NOTE if engines == {'vsym'} else CBMC_NOTE if engines == {'cbmc'} else DEF_NOTE + ' Some configurations use CBMC.', evidence_file='evidence/%s.json' % p))
    with open(ROOT + '/properties.jsonl', 'w') as f:
        for s in have: f.write(json.dumps(s) + '\n')
    m = dict(version=1, setup_cmd='python3 vf/check.py --setup', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
             notes='vf/spec.py generates this file and properties.jsonl; vf/props.py lists the configurations of each check. See DESIGN.md.')
    with open(ROOT + '/MANIFEST.json', 'w') as f: json.dump(m, f, indent=1); f.write('\n')
    print(len(have), 'properties;', 'missing', [s['id'] for s in S if s not in have])


if __name__ == '__main__': main()
