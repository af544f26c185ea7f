"""What each check runs.  One entry per property: a list of configurations (harness, bounds, time)."""
ASSUME = [
    'malloc succeeds (my_alloc aborts the program when it does not)',
    'x86-64 little-endian, LP64; clang 18 -O0 semantics of the C sources (after sroa, simplifycfg)',
    'libc is represented by the C models in models/libc.c; sampled paths are replayed against the real libc',
    'nothing is claimed outside the bounds listed per configuration, nor for configurations marked incomplete',
]
PROPS = {}


def P(pid, configs, **kw):
    PROPS[pid] = dict(kw, configs=configs)


def C(name, h, bound, t=30, **kw):
    return dict(kw, name=name, h=h, bound=bound, t=t)



P('P02', [C('n10', 'unpack.c', 'packet of 0..10 arbitrary octets, every start offset', defs={'N': 10}, wit=['ok', 'pointer']),
          C('max', 'unpack_max.c', 'labels of 61-63,61-63,61-63,1-63,0-63 octets (255-octet limit)', wit=['ok', 'long']),
          C('maxptr', 'unpack_max.c', 'labels of 62-63,62-63,1-63 octets, then a pointer to labels of 61-63,1-63 octets (255-octet limit)', defs={'PTR': 1}, wit=['ok', 'long']),
          C('hops', 'unpack_max.c', 'a name at any of twelve offsets of 0..16000 behind 1..122 pointers, each to the one before, with and without labels between', defs={'HOPS': 1}, wit=['ok', 'long']),
          C('n11', 'unpack.c', 'packet of 0..11 arbitrary octets, every start offset', defs={'N': 11}, tdefs={'N': 12}, t=60, wit=['ok', 'pointer']),
          C('n13', 'unpack.c', 'packet of 0..13 arbitrary octets, every start offset', defs={'N': 13}, tt=420, wit=['ok', 'pointer'], thorough=True)])
P('P03', [C('n12', 'scanners.c', 'buffer of 1..12 arbitrary octets, every start offset', defs={'N': 12}, tdefs={'N': 13}, t=60, tt=1200, wit=['name', 'compressed']),
          C('max', 'unpack_max.c', 'labels of 61-63,61-63,61-63,1-63,0-63 octets (255-octet limit)', wit=['ok', 'long'])])
P('P11', [C('any', 'domstr.c', '0..7 arbitrary octets, well formed or not', defs={'N': 7}, tdefs={'N': 9}, wit=['full']),
          C('max', 'domstr_max.c', '252..255 octets, arbitrary at 0, 64 and the end, all 1 or all 255 elsewhere', wit=['done'])])
P('P12', [C('wf', 'domstr.c', 'every well-formed name of up to 8 octets', defs={'N': 8, 'WF': 1}, tdefs={'N': 10}, t=60, wit=['labels']),
          C('long', 'domstr.c', 'a name of up to 255 octets: one label of any length and up to three of 1, 32, 62 or 63 octets, or 1..127 short labels; two octets arbitrary', defs={'LONG': 1, 'WF': 1}, t=60, wit=['labels'])])
P('P13', [C('fold', 'strname.c', 'every text of 0..8 characters, folding', defs={'N': 8, 'FOLD': 1}, tdefs={'N': 10}, t=40, wit=['ok', 'rejected']),
          C('case', 'strname.c', 'every text of 0..8 characters, keeping case', defs={'N': 8, 'FOLD': 0}, tdefs={'N': 10}, t=40, wit=['ok', 'rejected']),
          C('max', 'strname_max.c', 'labels of 61-64, 63, 63, 56-64 and 0-4 characters, with and without an escape per label and a final dot', defs={'LOOSE': 1}, tdefs={'LOOSE': 3}, wit=['ok', 'long']),
          C('label', 'strname_win.c', 'one label of 62..64 characters, two adjacent arbitrary ones at any place, with and without a final dot', defs={'FOLD': 1}, wit=['ok', 'rejected']),
          C('whole', 'strname_win.c', 'labels of 63, 63, 63 and 60..62 characters, two adjacent arbitrary ones at the start or end of a label, with and without a final dot', defs={'FOLD': 0, 'LONG': 1}, wit=['ok', 'rejected'])])
P('P15', [C('n', 'downname.c', '0..11 arbitrary octets', defs={'N': 11}, tdefs={'N': 13}, wit=['full']),
          C('win', 'downname.c', '253..255 octets, two adjacent arbitrary ones at any place', defs={'N': 255, 'WIN': 1}, wit=['full'])])
P('P17', [C('wf', 'subdomain.c', 'well-formed names of up to 14 and 9 octets', defs={'NA': 14, 'NB': 9, 'WF': 1}, tdefs={'NA': 18, 'NB': 12}, wit=['below', 'not below']),
          C('long', 'subdomain.c', 'a name of up to 255 octets: one label of any length and up to three of 1, 32, 62 or 63 octets, or 1..127 short labels, and its end from some label on, one octet of it arbitrary', defs={'LONG': 1}, t=60, wit=['below', 'not below']),
          C('any', 'subdomain.c', 'arbitrary octets, 1..9 and 1..6', defs={'NA': 9, 'NB': 6}, tdefs={'NA': 11, 'NB': 8}, wit=['below', 'not below'])])
P('P18', [C('wf', 'labels.c', 'well-formed names of up to 18 octets', defs={'N': 18, 'WF': 1}, tdefs={'N': 24}, wit=['labels']),
          C('long', 'labels.c', 'a name of up to 255 octets: one label of any length and up to three of 1, 32, 62 or 63 octets, or 1..127 short labels', defs={'LONG': 1, 'WF': 1}, wit=['labels']),
          C('chop', 'labels.c', '1..255 octets with any first octet, removing the first label', defs={'CHOP': 1, 'N': 1}, wit=['chopped', 'refused']),
          C('any', 'labels.c', '1..14 arbitrary octets', defs={'N': 14}, tdefs={'N': 18}, wit=['name', 'not a name'])])
RAW = 'packets of 0..%d arbitrary octets'
CNT = 'packets with every section count 0 or 1 and 0..%d arbitrary octets after the header'
SECS = 'header, question and up to %d records per section (owners: one-octet label or pointer; TXT, CNAME), all header, type and TTL bits arbitrary, cut by 0..7 octets or followed by one'
FLDS = 'one record of each known type, class IN, built field by field (names: root, one label, pointer, label and pointer; strings of 0-2; all A6 prefix classes; bitmaps of 0-2 windows; 0-2 SvcParams), exact, one octet short or one long'
ANY = 'one record of any type, any class and any TTL with 0..%d arbitrary octets of rdata, and one octet after it'
INC = 'one record of any type, class %s, with 0..%d arbitrary octets of rdata, and one octet after it'
OPTS = 'a question (OPT or not), and 0..2 OPT records with any class, TTL and 0..4 octets of options, in each section, with or without another record before'
MANYRR = '2..300 records in one section, of one owner, nine in turns or (up to 65) all different, the last of one of them; one with any TTL, or an OPT record'
LONGRD = 'rdata of up to 65535 octets: opaque, up to 257 strings, a string of 0..255 octets, up to 200 bitmap windows, SvcParams with values of up to 65000 octets, keys; exact, one octet short or long'
BIG = 'rdata of 65335..65535 octets that starts with a compressed name of 7..255 octets'
P('P01', [C('raw', 'parse.c', RAW % 14, defs={'MODE': 0, 'N': 14, 'CHK': 64}, t=60, wit=['accepted', 'rejected']),
          C('cnt', 'parse.c', CNT % 6, defs={'MODE': 1, 'N': 6, 'CNT': 1, 'CHK': 64}, tdefs={'N': 8}, t=40, wit=['accepted', 'rejected']),
          C('rr', 'parse.c', ANY % 3, defs={'MODE': 2, 'L': 3, 'LMIN': 0, 'CHK': 64}, tdefs={'L': 4}, t=40, wit=['accepted', 'rejected']),
          C('in', 'parse.c', INC % ('IN', 6), defs={'MODE': 2, 'L': 6, 'LMIN': 0, 'CLASS': 1, 'NOTTL': 1, 'CHK': 64}, tdefs={'L': 9}, t=40, wit=['accepted', 'rejected']),
          C('flds', 'parse.c', FLDS, defs={'MODE': 6, 'CHK': 64}, t=30, wit=['accepted', 'rejected']),
          C('big', 'parse.c', BIG, defs={'MODE': 5, 'CHK': 64}, t=20, wit=['accepted', 'rejected']),
          C('many', 'parse.c', MANYRR, defs={'MODE': 9, 'CHK': 64, 'REF_MAXRR': 310, 'REF_RDCAP': 8}, t=60, wit=['accepted', 'many']),
          C('long', 'parse.c', LONGRD, defs={'MODE': 10, 'CHK': 64, 'REF_MAXRR': 2, 'REF_RDCAP': 66000}, t=60, wit=['accepted', 'rejected', 'long'])])
P('P04', [C('header', 'header.c', 'every string of 0..14 octets as a header', defs={'N': 14}, wit=['header', 'short']),
          C('secs', 'parse.c', SECS % 1, defs={'MODE': 7, 'RRS': 1, 'CHK': 17}, tdefs={'RRS': 2}, t=40, wit=['accepted', 'rejected']),
          C('cnt', 'parse.c', CNT % 6, defs={'MODE': 1, 'N': 6, 'CNT': 1, 'CHK': 17}, tdefs={'N': 7}, t=60, wit=['accepted', 'rejected']),
          C('many', 'parse.c', MANYRR, defs={'MODE': 9, 'CHK': 17, 'REF_MAXRR': 310, 'REF_RDCAP': 8}, t=60, wit=['accepted', 'many'])])
P('P05', [C('opt', 'parse.c', OPTS, defs={'MODE': 4, 'CHK': 2}, wit=['accepted', 'edns']),
          C('many', 'parse.c', MANYRR, defs={'MODE': 9, 'CHK': 2, 'REF_MAXRR': 310, 'REF_RDCAP': 8}, t=60, wit=['accepted', 'many'])])
P('P06', [C('grp', 'parse.c', 'three records in one section: owner the root or a label of one arbitrary octet, two types, two classes, TTLs differing in one octet', defs={'MODE': 3, 'RRS': 3, 'CHK': 4}, tdefs={'RRS': 4}, wit=['accepted', 'grouped', 'several sets']),
          C('ttl', 'parse.c', 'two records in one section: owner the root or a label of one arbitrary octet, two types, two classes, any TTLs', defs={'MODE': 3, 'RRS': 2, 'TTL': 1, 'CHK': 4}, wit=['accepted', 'grouped', 'several sets']),
          C('many', 'parse.c', 'five records in one section, of up to four sets, in any order', defs={'MODE': 8, 'RRS': 5, 'CHK': 4}, tdefs={'RRS': 6}, wit=['accepted', 'grouped', 'several sets']),
          C('lots', 'parse.c', MANYRR, defs={'MODE': 9, 'CHK': 4, 'REF_MAXRR': 310, 'REF_RDCAP': 8}, t=60, wit=['accepted', 'many'])])
P('P07', [C('any', 'parse.c', ANY % 3, defs={'MODE': 2, 'L': 3, 'LMIN': 0, 'CHK': 24}, tdefs={'L': 4}, t=60, wit=['accepted', 'rejected']),
          C('in', 'parse.c', INC % ('IN', 6), defs={'MODE': 2, 'L': 6, 'LMIN': 0, 'CLASS': 1, 'NOTTL': 1, 'CHK': 24}, tdefs={'L': 8}, t=40, wit=['accepted', 'rejected']),
          C('ch', 'parse.c', INC % ('CH', 6), defs={'MODE': 2, 'L': 6, 'LMIN': 0, 'CLASS': 3, 'NOTTL': 1, 'CHK': 24}, tdefs={'L': 8}, t=40, wit=['accepted', 'rejected']),
          C('flds', 'parse.c', FLDS, defs={'MODE': 6, 'CHK': 24}, t=40, wit=['accepted', 'rejected']),
          C('big', 'parse.c', BIG, defs={'MODE': 5, 'CHK': 24}, t=20, wit=['accepted', 'rejected']),
          C('long', 'parse.c', LONGRD, defs={'MODE': 10, 'CHK': 24, 'REF_MAXRR': 2, 'REF_RDCAP': 66000}, t=60, wit=['accepted', 'rejected', 'long'])])
P('P08', [C('raw', 'parse.c', RAW % 14, defs={'MODE': 0, 'N': 14, 'CHK': 32}, t=40, wit=['accepted', 'rejected']),
          C('secs', 'parse.c', SECS % 1, defs={'MODE': 7, 'RRS': 1, 'CHK': 32}, tdefs={'RRS': 2}, t=40, wit=['accepted', 'rejected']),
          C('cnt', 'parse.c', CNT % 6, defs={'MODE': 1, 'N': 6, 'CNT': 1, 'CHK': 32}, t=40, wit=['accepted', 'rejected']),
          C('flds', 'parse.c', FLDS, defs={'MODE': 6, 'CHK': 32}, t=40, wit=['accepted', 'rejected']),
          C('opt', 'parse.c', OPTS, defs={'MODE': 4, 'CHK': 32}, wit=['accepted']),
          C('big', 'parse.c', BIG, defs={'MODE': 5, 'CHK': 32}, t=20, wit=['accepted', 'rejected']),
          C('many', 'parse.c', MANYRR, defs={'MODE': 9, 'CHK': 32, 'REF_MAXRR': 310, 'REF_RDCAP': 8}, t=60, wit=['accepted', 'many']),
          C('long', 'parse.c', LONGRD, defs={'MODE': 10, 'CHK': 32, 'REF_MAXRR': 2, 'REF_RDCAP': 66000}, t=60, wit=['accepted', 'rejected', 'long'])])
P('P16', [C('rrset', 'downrrset.c', 'RRsets of eight types with an owner of 1..4 octets and 0..2 rdatas of 0, 1, 3 or 5 octets, or missing; one octet of each arbitrary', defs={'K': 2}, tdefs={'K': 3}, t=40, tt=200, wit=['folded', 'refused']),
          C('all', 'downrdata.c', 'every type, class IN or not, 0..8 arbitrary octets of rdata', defs={'N': 8}, t=60, wit=['folded', 'malformed', 'not listed']),
          C('srv', 'downrdata.c', 'SRV and PX, class IN, 9..12 arbitrary octets of rdata', defs={'N': 12, 'LMIN': 9, 'TYPES': '33,26', 'CLASS': 1}, tdefs={'N': 14}, t=30, wit=['folded', 'malformed']),
          C('naptr', 'downrdata.c', 'NAPTR, class IN, 9..13 arbitrary octets of rdata', defs={'N': 13, 'LMIN': 9, 'TYPES': '35', 'CLASS': 1}, tdefs={'N': 16}, t=30, wit=['folded', 'malformed']),
          C('sig', 'downrdata.c', 'SIG, class IN, 17..25 arbitrary octets of rdata', defs={'N': 25, 'LMIN': 17, 'TYPES': '24', 'CLASS': 1}, tdefs={'N': 27}, t=30, wit=['folded', 'malformed']),
          C('flds', 'downrdata.c', FLDS.replace('pointer, label and pointer', 'two labels'), defs={'FLDS': 1, 'CLASS': 1, 'TYPES': '2,3,4,5,6,7,8,9,12,14,15,17,18,21,24,26,30,33,35,36,38,39,1,16,47'}, t=30, wit=['folded', 'malformed', 'not listed'])])
P('P09', [C('any', 'deser.c', '0..18 octets, all arbitrary but the owner length (0..3, 255), rdata count (0..3, 255, 256, 32768, 65535) and rdata lengths (0..3, what is left, one more, 255, 256, 65535)', defs={'N': 18, 'NL': 3}, tdefs={'N': 24}, t=60, wit=['accepted', 'rejected', 'several']),
          C('large', 'deser.c', 'owners of 0..255 octets, 0..300 rdatas of 0..1025 octets or 0..17 of up to 65535, whole, with an octet more, or cut at a border', defs={'LARGE': 1}, t=60, steps=200000000, wit=['accepted', 'rejected', 'several'])])
P('P10', [C('small', 'serial.c', 'owner of 0..3 octets, 0..3 rdatas of 0..3 octets, any type, class, TTL', defs={'NAME': 3, 'K': 3, 'L': 3}, tdefs={'NAME': 4, 'K': 4}, wit=['several']),
          C('big', 'serial.c', 'owner of 250..255 octets, 0..2 rdatas of 0, 1, 256, 65535 octets', defs={'NAME': 0, 'BIGNAME': 1, 'BIGRD': 1, 'K': 2, 'L': 3}, wit=['several']),
          C('many', 'serial.c', 'owner of 0..1 octets, 4..300 rdatas of 0..257 octets', defs={'NAME': 1, 'K': 10, 'MANY': 1, 'L': 300}, t=60, wit=['several'])])
P('P19', [C('n', 'cmprr.c', 'owners of 0..4 arbitrary octets, any type, class, TTL', defs={'N': 4}, tdefs={'N': 6}, wit=['equal', 'different']),
          C('win', 'cmprr.c', 'owners of 254..255 octets that differ in two adjacent arbitrary octets anywhere', defs={'WIN': 1}, t=40, wit=['equal', 'different'])])
P('P20', [C('k', 'sortrr.c', '0..4 rdatas of 0..2 arbitrary octets', defs={'K': 4, 'L': 2}, tdefs={'K': 5}, t=40, wit=['moved']),
          C('many', 'sortrr.c', '5..300 rdatas of 2..300 octets, different in their last octets, ascending, descending or mixed', defs={'K': 7, 'MANY': 1}, t=60, steps=200000000, wit=['moved'])])
P('P35', [C('any', 'loadnames.c', 'a file of 0..6 arbitrary octets', defs={'N': 6}, tdefs={'N': 8}, t=40, wit=['two names', 'bad line', 'missing']),
          C('long', 'loadnames.c', 'a line of 1000..1039 characters', defs={'LONG': 1}, wit=['bad line', 'missing']),
          C('many', 'loadnames.c', '2..300 names, comments and empty lines, one beginning with an arbitrary octet', defs={'MANY': 1}, t=60, wit=['two names', 'bad line', 'missing'])])
LM = dict(lib=False)
P('P28', [C('bytes', 'b64.c', 'every octet string of 0..8 octets, fed in two pieces', defs={'MODE': 0, 'N': 8}, tdefs={'N': 11}, src=['libmy/b64_encode.c', 'libmy/b64_decode.c'], lib=False, wit=['full']),
          C('text', 'b64.c', 'every text of 0..6 characters, fed in two pieces', defs={'MODE': 1, 'N': 6}, tdefs={'N': 8}, src=['libmy/b64_encode.c', 'libmy/b64_decode.c'], lib=False, wit=['decoded']),
          C('long', 'b64.c', '0..300 octets, two of them arbitrary, fed in two pieces', defs={'MODE': 0, 'N': 300, 'LONG': 1}, tdefs={'N': 1000}, src=['libmy/b64_encode.c', 'libmy/b64_decode.c'], lib=False, wit=['full'])])
P('P29', [C('bytes', 'b32.c', 'every octet string of 0..10 octets', defs={'MODE': 0, 'N': 10}, tdefs={'N': 15}, src=['libmy/b32_encode.c', 'libmy/b32_decode.c'], lib=False, wit=['full']),
          C('text', 'b32.c', 'every text of 0..8 characters', defs={'MODE': 1, 'N': 8}, tdefs={'N': 9}, src=['libmy/b32_encode.c', 'libmy/b32_decode.c'], lib=False, wit=['padded', 'rejected', 'decoded']),
          C('long', 'b32.c', '1..300 octets, two of them arbitrary', defs={'MODE': 0, 'N': 300, 'LONG': 1}, src=['libmy/b32_encode.c', 'libmy/b32_decode.c'], lib=False, t=60, wit=['full'])])
F = dict(src=['libmy/my_format.c'], lib=False)
P('P30', [C('dec16', 'fmtnum.c', 'every 16-bit integer in decimal', defs={'MODE': 0, 'BITS': 16, 'MAXD': 5}, wit=['longest'], **F),
          C('dec32', 'fmtnum.c', 'every 32-bit integer in decimal', defs={'MODE': 0, 'BITS': 32, 'MAXD': 10}, wit=['longest'], **F),
          C('dec64', 'fmtnum.c', 'every 64-bit integer in decimal', defs={'MODE': 0, 'BITS': 64, 'MAXD': 20}, wit=['longest'], **F),
          C('pow', 'fmtnum.c', '64-bit integers around the powers of ten and two', defs={'MODE': 0, 'BITS': 0, 'MAXD': 20}, wit=['longest'], **F),
          C('hexs', 'fmtnum.c', 'octet strings of 0..3 octets in hexadecimal, every buffer size', defs={'MODE': 1, 'N': 3}, tdefs={'N': 5}, wit=['cut', 'full'], **F),
          C('hex', 'fmtnum.c', 'every 16-bit integer in hexadecimal', defs={'MODE': 2}, wit=['done'], **F),
          C('hexl', 'fmtnum.c', 'octet strings of 0..300 octets in hexadecimal, two of them arbitrary, buffers around the size needed', defs={'MODE': 1, 'N': 300, 'LONG': 1}, wit=['cut', 'full'], **F)])
F = dict(src=['libmy/fast_inet_ntop.c'], lib=False)
P('P31', [C('v4', 'ntop.c', 'every IPv4 address, every buffer size', defs={'MODE': 4}, wit=['short', 'ok'], **F),
          C('v6', 'ntop.c', 'IPv6 addresses: every group zero or not, two of them arbitrary', defs={'MODE': 6, 'ARB': 2}, tdefs={'ARB': 3}, t=60, **F)])
P('P33', [C('vector', 'ubuf.c', 'vectors of three-octet elements, initial room 0..3, every sequence of 4 operations with sizes 0..5', defs={'MODE': 0, 'OPS': 4}, tdefs={'OPS': 5}, lib=False, wit=['appended', 'advanced', 'clipped', 'detached']),
          C('ubuf', 'ubuf.c', 'octet buffers, every sequence of 4 operations with sizes 0..3 and around 64', defs={'MODE': 1, 'OPS': 4}, tdefs={'OPS': 5}, lib=False, wit=['text', 'formatted', 'grown']),
          C('large', 'ubuf.c', 'octet buffers, every sequence of 2 operations with twenty sizes of 0..70000', defs={'MODE': 2, 'OPS': 2}, lib=False, t=40, steps=200000000, wit=['formatted', 'grown'])])
F = dict(src=['libmy/varint.c'], lib=False)
P('P36', [C('u64', 'varint.c', 'every 64-bit integer', defs={'MODE': 64}, wit=['longest'], **F),
          C('u32', 'varint.c', 'every 32-bit integer', defs={'MODE': 32}, wit=['longest'], **F),
          C('any', 'varint.c', 'every string of 0..12 octets', defs={'MODE': 0, 'N': 12}, wit=['incomplete', 'value', 'endless'], **F)])
P('P37', [C('v4', 'iparith.c', 'every IPv4 address and prefix length', defs={'MODE': 4}, lib=False, wit=['all', 'host']),
          C('v6', 'iparith.c', 'every IPv6 address and prefix length', defs={'MODE': 6}, lib=False, wit=['all', 'host'])])
P('P38', [C('ops', 'heap.c', 'every sequence of 6 operations on an empty heap, arbitrary 8-bit keys', defs={'OPS': 6}, tdefs={'OPS': 7}, src=['libmy/heap.c'], lib=False, wit=['popped', 'replaced', 'three']),
          C('big', 'heap.c', 'heaps of 0..16 elements put in in four orders, then every sequence of 2 operations with arbitrary keys, then emptied', defs={'OPS': 2, 'START': 16}, tdefs={'OPS': 3}, src=['libmy/heap.c'], lib=False, t=40, tt=300, wit=['popped', 'replaced', 'three']),
          C('huge', 'heap.c', '17..257 elements in four orders, one of arbitrary priority, then a third taken out, a third replaced, a third put in, and emptied', defs={'HUGE': 1}, src=['libmy/heap.c'], lib=False, t=60, steps=200000000, wit=['many'])])
F = dict(src=['libmy/crc32c-slicing.c', 'libmy/crc32c-sse42.c', 'libmy/crc32c.c'], lib=False)
P('P40', [C('one', 'crc.c', '0..20 octets at every offset from a word boundary, one octet arbitrary; table and SSE 4.2 code, and selection by processor', defs={'N': 20, 'ONE': 1}, wit=['longest'], **F),
          C('all', 'crc.c', '0..32 arbitrary octets at every offset from a word boundary; table and SSE 4.2 code, and selection by processor', defs={'N': 32, 'ONE': 0}, tdefs={'N': 64}, wit=['longest'], **F),
          C('long', 'crc.c', '33..4099 octets at every offset from a word boundary, one octet arbitrary', defs={'N': 4096, 'ONE': 1, 'LONG': 1}, t=60, wit=['longest'], **F)])
P('P41', [C('any', 'lookup3.c', 'keys of 0..26 arbitrary octets at every offset from a word boundary, any seeds', defs={'N': 26}, tdefs={'N': 40}, src=['libmy/lookup3.c'], lib=False, wit=['words', 'longest']),
          C('long', 'lookup3.c', 'keys of 27..150 octets at every offset from a word boundary, the last octet and those around the key arbitrary, four pairs of seeds', defs={'N': 150, 'LONG': 1}, tdefs={'N': 300}, src=['libmy/lookup3.c'], lib=False, t=60, wit=['words', 'longest'])])
P('P26', [C('%s-all' % n, 'codes.c', 'every 16-bit %s to its name and back in any mixture of cases' % n, defs={'KIND': k, 'MODE': 0}, wit=['known', 'unknown']) for k, n in enumerate(('type', 'class'))] +
         [C('%s-near' % n, 'codes.c', 'every %s name with one character replaced, removed or added' % n, defs={'KIND': k, 'MODE': 3}, wit=['known', 'unknown']) for k, n in enumerate(('type', 'class'))] +
         [C('%s-text' % n, 'codes.c', 'every text of 0..%d characters as a %s' % (5 + k, n), defs={'KIND': k, 'MODE': 1, 'N': 5 + k}, tdefs={'N': 7 + k}, t=40, wit=['known', 'unknown']) for k, n in enumerate(('type', 'class'))] +
         [C('%s-number' % n, 'codes.c', '%s followed by any text of 0..5 characters' % n.upper(), defs={'KIND': k, 'MODE': 2, 'N': 5}, tdefs={'N': 6}, t=40, tt=200, wit=['known', 'unknown']) for k, n in enumerate(('type', 'class'))] +
         [C('%s-digits' % n, 'codes.c', '%s followed by 0..25 zeros, nine beginnings of a number and two arbitrary octets' % n.upper(), defs={'KIND': k, 'MODE': 6}, wit=['known', 'unknown']) for k, n in enumerate(('type', 'class'))])
P('P27', [C('codes', 'codes.c', 'every 16-bit operation and response code', defs={'KIND': 2, 'MODE': 4}, wit=['known', 'unknown']),
          C('results', 'codes.c', 'every 32-bit result code; the version', defs={'KIND': 2, 'MODE': 5}, wit=['known', 'unknown']),
          C('rcode-all', 'codes.c', 'every 16-bit response code to its name and back in any mixture of cases', defs={'KIND': 2, 'MODE': 0}, wit=['known', 'unknown']),
          C('rcode-near', 'codes.c', 'every response code name with one character replaced, removed or added', defs={'KIND': 2, 'MODE': 3}, wit=['known', 'unknown']),
          C('rcode-text', 'codes.c', 'every text of 0..8 characters as a response code', defs={'KIND': 2, 'MODE': 1, 'N': 8}, tdefs={'N': 10}, wit=['known', 'unknown'])])
P('P21', [C('any', 'rdany.c', 'every type and class, 0..4 arbitrary octets', defs={'MODE': 0, 'N': 4}, tdefs={'N': 5}, t=40, wit=['malformed', 'rendered']),
          C('rest', 'rdany.c', 'every known type and OPT, fixed values for the fields before any field, then 0..3 arbitrary octets', defs={'MODE': 1, 'N': 3}, tdefs={'N': 4}, t=40, tt=200, wit=['malformed', 'rendered']),
          C('lists', 'rdany.c', 'SVCB, OPT and A6 (fixed values before any field), then 0..6 arbitrary octets', defs={'MODE': 1, 'N': 6, 'TYPES': '64,41,38'}, tdefs={'N': 8}, t=40, wit=['malformed', 'rendered']),
          C('types', 'rdany.c', 'NSEC, NSEC3 and CSYNC (fixed values before any field), then 0..4 arbitrary octets', defs={'MODE': 1, 'N': 4, 'TYPES': '47,50,62'}, thorough=True, tt=200, wit=['malformed', 'rendered'])])
P('P22', [C('types', 'rdtext.c', 'every known type, one field arbitrary within its format (strings of 0..2, 15 numbers, names of 0..2 labels, lists of 0..2), the others fixed; or the first fields only', defs={'STR': 2}, tdefs={'STR': 3}, t=40, tt=200, wit=['cut', 'round trip']),
          C('nums', 'rdtext.c', 'number fields of every size: every value of one octet, the others all 0 or all 255', defs={'NUMS': 1, 'TYPES': '1,6,15,38,46,50,64'}, t=40, wit=['cut', 'round trip']),
          C('strs', 'rdtext.c', 'strings, labels, values of 0..3 arbitrary octets', defs={'STR': 3, 'TYPES': '2,16,64,13,257,256'}, tdefs={'STR': 4}, t=40, tt=240, wit=['cut', 'round trip']),
          C('big', 'rdtext.c', 'strings, salts, hashes, alpn ids of 254 and 255 octets; data and values of 300 octets; one octet of them arbitrary', defs={'BIG': 1, 'TYPES': '10,13,16,43,48,50,51,64,256,257'}, wit=['cut', 'round trip'])])
P('P23', [C('near', 'rdparse.c', 'every known type: for each field, examples with one character replaced, removed or added', defs={'MODE': 1}, wit=['accepted', 'rejected']),
          C('any', 'rdparse.c', 'every known type: any field replaced by any 0..3 characters', defs={'MODE': 0, 'N': 3}, t=60, wit=['accepted', 'rejected']),
          C('long', 'rdparse.c', 'every known type: a string of 253..257 octets, a salt of 507..513 or a hash of 405..412 digits, with one character arbitrary or escaped', defs={'MODE': 4}, t=40, wit=['accepted', 'rejected']),
          C('cut', 'rdparse.c', 'every known type: any field replaced by any 0..3 characters and the rest left out', defs={'MODE': 0, 'N': 3, 'CUT': 1}, tdefs={'N': 5}, t=60, tt=400, wit=['accepted', 'rejected'])])
P('P24', [C('data', 'generic.c', 'every type without a format, every class, 0..3 arbitrary octets', defs={'MODE': 0, 'N': 3}, tdefs={'N': 4}, t=40, tt=200, wit=['round trip']),
          C('long', 'generic.c', 'data of 99..1500 octets, one of them arbitrary', defs={'MODE': 0, 'BIG': 1}, t=40, wit=['round trip']),
          C('text', 'generic.c', 'eleven beginnings of a generic text followed by any 0..4 characters', defs={'MODE': 1, 'N': 4}, tdefs={'N': 6}, t=40, tt=200, wit=['accepted', 'rejected'])])
P('P25', [C('near', 'rdparse.c', 'SVCB and HTTPS: sixteen parameter lists with one character replaced, removed or added', defs={'MODE': 1, 'AF': 2, 'TYPES': '64,65', 'MSG': 1}, wit=['accepted', 'rejected', 'parsed']),
          C('value', 'rdparse.c', 'SVCB and HTTPS: twenty beginnings of a parameter followed by any 0..4 characters', defs={'MODE': 2, 'AF': 2, 'N': 4, 'TYPES': '64,65', 'MSG': 1}, tdefs={'N': 5}, t=40, tt=200, wit=['accepted', 'rejected', 'parsed']),
          C('alpn', 'rdparse.c', 'SVCB and HTTPS: an application protocol identifier of 253..258 octets, one of them arbitrary or escaped, between others', defs={'MODE': 3, 'AF': 2, 'TYPES': '64,65', 'MSG': 1}, wit=['accepted', 'rejected', 'parsed']),
          C('big', 'rdtext.c', 'values of 255 and 300 octets, one of them arbitrary', defs={'BIG': 1, 'TYPES': '64,65'}, wit=['round trip'])])
P('P32', [C('raw', 'edns.c', '0..10 octets of option data of six codes, arbitrary within the lengths that matter', defs={'MODE': 0, 'N': 6}, tdefs={'N': 8}, t=40, tt=200, wit=['options', 'malformed', 'message']),
          C('long', 'edns.c', 'an option of 255 or 257 octets, one of them arbitrary', defs={'MODE': 1}, wit=['options', 'message']),
          C('subnet', 'edns.c', 'one or two client subnet options: families, prefix lengths, 0..17 octets of address; cut short or followed by other octets', defs={'MODE': 2, 'N': 0}, t=60, tt=100, wit=['options', 'malformed', 'message']),
          C('error', 'edns.c', 'one or two extended error options: 36 codes, 0..4 arbitrary octets of text; cut short or followed by other octets', defs={'MODE': 3, 'N': 4}, tdefs={'N': 8}, t=40, tt=150, wit=['options', 'malformed', 'message']),
          C('other', 'edns.c', 'one or two other options: 18 codes, 0..4 arbitrary octets; cut short or followed by other octets', defs={'MODE': 4, 'N': 4}, tdefs={'N': 8}, t=40, tt=200, wit=['options', 'malformed', 'message'])])
P('P34', [C('header', 'msgtext.c', 'messages without records: every flag word, response codes 0..31 and others, identifiers, OPT fields', defs={'MODE': 0}, wit=['header', 'edns']),
          C('records', 'msgtext.c', 'messages of 0..3 records in any sections', defs={'MODE': 1}, t=40, wit=['three', 'empty']),
          C('parts', 'msgtext.c', 'a record, a section of 0..2 records, an RRset of 0..3 rdatas, in every section, to a string or a stream: owner, TTL, type, class, data varied', defs={'MODE': 2}, t=40, wit=['record', 'section', 'question set', 'three']),
          C('parsed', 'msgtext.c', 'a message of six records, one octet of it arbitrary, parsed', defs={'MODE': 3}, t=40, wit=['parsed', 'rejected'])])
P('P42', [C('hex', 'helpers.c', 'every string of 0..10 characters', defs={'MODE': 0, 'N': 10}, tdefs={'N': 16}, lib=False, wit=['decoded', 'refused']),
          C('replace', 'helpers.c', 'every string of 0..5 characters, replaced 1..3, replacement 0..2', defs={'MODE': 1, 'N': 5}, tdefs={'N': 7}, lib=False, wit=['twice', 'none']),
          C('time', 'helpers.c', 'sum and difference of any two normalised times whose seconds lie within 2^61', defs={'MODE': 2}, lib=False, wit=['carry', 'borrow']),
          C('double', 'timedbl.c', 'every non-negative double below 2^53', engine='cbmc', replay='timedbl.c', lib=False, defs={'MODE': 0}, opts=['--conversion-check', '--signed-overflow-check', '--pointer-check'], t=100),
          C('exact', 'timedbl.c', 'every multiple of 1/16 from 0 to 2^42; and back', engine='cbmc', replay='timedbl.c', lib=False, defs={'MODE': 1, 'KM': 64}, opts=['--conversion-check', '--signed-overflow-check', '--pointer-check'], t=100)])

T = dict(lib=False, thr=True)
P('P39', [C('mb', 'queue.c', 'a queue of 2 or 4 slots, any place in the ring, empty to full: three insertions in one thread, three removals in the other; 3 preemptions at any shared access, any elements', defs={'MUTEX': 0, 'OPS': 3, 'SIZES': 2, 'PRE': 3}, tdefs={'PRE': 4}, tt=350, src=['libmy/my_queue_mb.c'], wit=['full', 'empty', 'preempted'], **T),
          C('mutex', 'queue.c', 'a queue of 2 or 4 slots, any place in the ring, empty to full: three insertions in one thread, three removals in the other; 3 preemptions at any shared access, any elements', defs={'MUTEX': 1, 'OPS': 3, 'SIZES': 2, 'PRE': 3}, tdefs={'PRE': 4}, tt=350, src=['libmy/my_queue_mutex.c'], wit=['full', 'empty', 'preempted'], **T)])
T2 = dict(thr=True)
P('P43', [C('own', 'reent.c', 'every pair of ten groups of calls on separate data; 2 preemptions at accesses to writable static data', defs={'PRE': 2}, tdefs={'PRE': 3}, tt=300, **T2),
          C('same', 'reent.c', 'every pair of five groups of calls on the same message, RRset, rdata, name or packet; one preemption at writes to them or accesses to writable static data', defs={'PRE': 1, 'SAME': '10,11,12,13,14'}, tdefs={'PRE': 2}, tt=300, **T2)])
P('P44', [C('any', 'pcapdump.c', 'captured packets of 0..100 arbitrary octets, but for those of the other configurations', defs={'N': 100, 'ODD': 0}, tdefs={'N': 160}, lib=False, wit=['passed over', 'printed', 'dumped']),
          C('cut', 'pcapdump.c', 'captured packets of type IPv4 that end within the first four octets of the IP header (a known finding)', defs={'N': 40, 'ODD': 1}, lib=False, wit=[]),
          C('short', 'pcapdump.c', 'captured IPv4 packets of 18..40 octets that state an IP header length below 20 (a known finding)', defs={'N': 40, 'ODD': 2}, lib=False, wit=[]),
          C('length', 'pcapdump.c', 'captured IPv4 packets of 18..60 octets that state an IP length below the IP header length (a known finding)', defs={'N': 60, 'ODD': 3}, lib=False, wit=[])])
TW = ['there already', 'taken out', 'found']
P('P45', [C('rb', 'tree.c', 'red-black tree: every sequence of 5 operations with any keys', defs={'SPLAY': 0, 'START': 0, 'OPS': 5}, tdefs={'OPS': 6}, lib=False, wit=TW),
          C('splay', 'tree.c', 'splay tree: every sequence of 5 operations with any keys', defs={'SPLAY': 1, 'START': 0, 'OPS': 5}, tdefs={'OPS': 6}, lib=False, wit=TW),
          C('rb-big', 'tree.c', 'red-black tree of 0..12 elements put in in four orders, then every 2 operations with any keys', defs={'SPLAY': 0, 'START': 12, 'OPS': 2}, tdefs={'OPS': 3}, lib=False, wit=TW),
          C('splay-big', 'tree.c', 'splay tree of 0..12 elements put in in four orders, then every 2 operations with any keys', defs={'SPLAY': 1, 'START': 12, 'OPS': 2}, tdefs={'OPS': 3}, lib=False, wit=TW),
          C('list', 'list.c', 'every sequence of 6 operations on two lists', defs={'OPS': 6}, tdefs={'OPS': 7}, lib=False, wit=['before', 'after', 'unlinked', 'joined'])])
FW = ['kept', 'unloaded', 'nothing done']
P('P46', [C('two', 'fileset.c', 'two reloads of sets of 0..3 lines out of three names, each file there or not; the set file unchanged, changed, replaced, gone or unreadable', defs={'RELOADS': 2, 'LINES': 3, 'NF': 3}, tdefs={'LINES': 4}, lib=False, t=90, tt=300, wit=FW),
          C('three', 'fileset.c', 'three reloads of sets of 0..1 lines out of two names, each file there or not; the set file unchanged, changed, replaced, gone or unreadable', defs={'RELOADS': 3, 'LINES': 1, 'NF': 2}, tdefs={'LINES': 2}, lib=False, tt=400, wit=FW)])
SG = {'%s(%s)' % (n, a): 'vp_%s(%s)' % (n, a) for n, a in (('stat', 'p,s'), ('fstatat', 'f,n,s,g'), ('mkdir', 'p,m'), ('opendir', 'p'), ('closedir', 'd'), ('readdir', 'd'), ('rewinddir', 'd'), ('dirfd', 'd'), ('rename', 'a,b'), ('unlink', 'p'), ('realpath', 'p,r'), ('usleep', 'n'), ('lstat', 'p,s'), ('access', 'p,m'), ('remove', 'p'), ('sleep', 'n'), ('nanosleep', 'a,b'), ('renameat', 'd,a,e,b'))}
T4 = dict(lib=False, thr=True, src=['libmy/spooldir.c'], gdefs=SG)
P('P47', [C('one', 'spool.c', 'one thread, 0..3 files (names, kinds, older files), a move that fails', defs={'NF': 3, 'CALLS': 4, 'PAIR': 0, 'PRE': 0}, wit=['handed out', 'made'], **T4),
          C('two', 'spool.c', 'two threads of two calls, 0..2 files (names, kinds, older files), a move that fails; 2 preemptions at locks, file operations and writes to the spool object', defs={'NF': 2, 'CALLS': 2, 'PAIR': 1, 'PRE': 2}, tdefs={'PRE': 3}, tt=300, wit=['handed out', 'made', 'preempted'], **T4)])

F0 = '"-b","-n","-s","-ni","-bn","-a=\\1","-n=\\1","-i=\\1","-s=","-\\1","--num","--n","--ar=\\1","--be","--=","--","-","-5","\\1","--u"'
F1 = '"-b","-n=4","-i","-x","-y","-z","-zx","-bi","--num=5","-n"'
F2 = '"-n","-s","-ns","--nod=a","--num=\\1","-7","--","","\\1"'
F3 = '"-n","--","-n=5","-i","-s=x","\\1","-ns"'
F4 = '"-n","-n=\\1","-i","\\1","m","-s"'
F5 = '"-n","--argv-file=f","--argv-f","\\1","-5","-s","--a=q"'
AB = dict(lib=False, wit=['accepted', 'refused'])
P('P48', [C('any', 'args.c', 'one argument of 0..6 arbitrary 7-bit characters after the program name', defs={'TABLE': 0, 'ARGS': 1, 'ANY': 6}, tdefs={'ANY': 7}, gdefs={'FORMS': F0}, **AB),
          C('list', 'args.c', '0..3 arguments out of twenty forms of options and values, with arbitrary characters in them', defs={'TABLE': 0, 'ARGS': 3}, tdefs={'ARGS': 4}, gdefs={'FORMS': F0}, **AB),
          C('groups', 'args.c', '0..4 arguments out of ten forms; options of which at most one, exactly one, or one in any case must be given', defs={'TABLE': 1, 'ARGS': 4}, tdefs={'ARGS': 5}, gdefs={'FORMS': F1}, **AB),
          C('rest', 'args.c', '0..4 arguments out of nine forms; a mandatory argument and a mandatory array', defs={'TABLE': 2, 'ARGS': 4}, tdefs={'ARGS': 5}, gdefs={'FORMS': F2}, **AB),
          C('global', 'argglobal.c', '0..2 settings in the environment variable GLOBAL_ARGV, out of 41 forms, some with arbitrary octets, and any separators', defs={'TOKS': 2}, tdefs={'TOKS': 3}, lib=False, t=60, tt=200, wit=['settings']),
          C('many', 'args.c', '0..24 options of an array, or values that are left, in the list or a file; one table with an array option', defs={'TABLE': 0, 'ARGS': 24, 'MANY': 24}, gdefs={'FORMS': '""'}, lib=False, wit=['accepted', 'many', 'refused']),
          C('left', 'args.c', '0..24 values for a mandatory array, in the list or a file', defs={'TABLE': 2, 'ARGS': 24, 'MANY': 24}, gdefs={'FORMS': '""'}, lib=False, wit=['accepted', 'many', 'refused']),
          C('set', 'args.c', '0..3 arguments out of seven forms, under each of: no repeated option, `--` toggles, both and no `=`', defs={'TABLE': 0, 'ARGS': 3, 'SET': 1}, gdefs={'FORMS': F3}, **AB),
          C('env', 'args.c', 'up to two arguments in the environment, before, after or not used, and 0..2 arguments, out of six forms', defs={'TABLE': 0, 'ARGS': 2, 'ENV': 1}, gdefs={'FORMS': F4}, **AB),
          C('file', 'args.c', '0..3 arguments out of seven forms, with a file of arguments (six contents, or none)', defs={'TABLE': 0, 'ARGS': 3, 'FILES': 1}, gdefs={'FORMS': F5}, **AB)])
P('P49', [C('from', 'argval.c', 'every option type but the floating ones, a value of 0..5 arbitrary 7-bit characters', defs={'MODE': 0, 'N': 5}, tdefs={'N': 6}, lib=False, wit=['unit']),
          C('to', 'argval.c', 'every option type but the floating ones; any character, any string of 0..4 octets, 23 numbers; a buffer of 1..30 octets', defs={'MODE': 1, 'N': 4, 'CAP': 30}, tdefs={'N': 5}, lib=False, wit=['unit', 'escape', 'cut']),
          C('copy', 'argval.c', '0..3 arguments of 0..3 arbitrary octets, a buffer of 0..13 octets', defs={'MODE': 2, 'N': 3, 'CAP': 13}, lib=False, wit=['cut', 'whole'])])
RO = dict(h='rate.c', engine='cbmc', replay='rate.c', lib=False, opts=['--conversion-check', '--signed-overflow-check', '--pointer-check', '--unwind', '4', '--sat-solver', 'cadical'], wit=['slept', 'went on'])
def R(name, rate, freq, calls, t, span=4, **kw): return C(name, bound='%d event%s a second%s, %d events at any times, %s' % (rate, 's' if rate > 1 else '', ', adjusted every event' if freq else '', calls, 'up to %d s apart' % span if span > 1 else 'less than a second apart'), t=t, defs={'RATE': rate, 'FREQ': freq, 'CALLS': calls, 'SPAN': span}, **RO, **kw)
P('P50', [R('r1', 1, 0, 3, 200), R('r2', 2, 0, 3, 200), R('r3', 3, 0, 3, 200), R('r7', 7, 0, 2, 200), R('adj', 1, 1, 2, 300), R('r1000', 1000, 0, 2, 300), R('r60', 60, 0, 2, 300), R('adj2', 1, 2, 4, 800, thorough=True), R('r1long', 1, 0, 3, 800, 256, thorough=True), R('r7more', 7, 0, 3, 800, thorough=True), R('adj20', 20, 1, 2, 800, thorough=True), R('r12345', 12345, 0, 2, 800, thorough=True)])
P('P51', [C('any', 'zone.c', '0..6 lines (records, starts of authority, empty lines, TTL and origin directives, bad lines), plain and compressed, missing or there, any serial number; left at any point', defs={'EVENTS': 6}, tdefs={'EVENTS': 8}, lib=False, wit=['refused', 'end', 'bad'])])
P('P52', [C('two', 'threadnum.c', 'two threads that register or not, after 0..3 registrations; 3 preemptions at any shared access', defs={'PRE': 3}, tdefs={'PRE': 6}, lib=False, thr=True, src=['libmy/threadnum.c'], wit=['both', 'second first', 'preempted'])])
P('P53', [C('read', 'small.c', '0..5 octets wanted, 0..6 there; short reads, interruptions, errors and the end at any point', defs={'MODE': 0, 'N': 5}, tdefs={'N': 6}, lib=False, wit=['read', 'failed', 'interrupted']),
          C('env', 'small.c', 'no variable, or a text of 0..5 arbitrary octets', defs={'MODE': 1, 'N': 5}, tdefs={'N': 6}, lib=False, wit=['number', 'hexadecimal', 'refused']),
          C('sleep', 'small.c', 'any time below 256 s, interrupted up to three times at any point, or failing', defs={'MODE': 2}, lib=False, wit=['slept', 'interrupted']),
          C('print', 'small.c', '0..5 arbitrary octets', defs={'MODE': 3, 'N': 5}, tdefs={'N': 6}, lib=False, wit=['escaped', 'quoted'])])
