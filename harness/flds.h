// Builds rdata field by field from a description of refmsg.h: every field well formed, its content arbitrary.
#ifndef FLDS_H
#define FLDS_H
static uint8_t *q; static size_t qn;
static inline void put(uint8_t b) { q[qn++] = b; }
static inline void put16(unsigned v) { put((uint8_t)(v >> 8)); put((uint8_t)v); }
// ptr: where compression pointers go; 0: names are not compressed
static inline void put_fields(const char *f, size_t ptr) {
	for (; *f; f++) switch (*f) {
	case 'N': switch (vf_choose(ptr ? 4 : 3)) { case 0: put(0); break; case 1: put(1); put(vf_u8()); put(0); break; case 2: if (ptr) { put(192); put((uint8_t)ptr); } else { put(1); put(vf_u8()); put(2); put(vf_u8()); put(vf_u8()); put(0); } break; case 3: put(1); put(vf_u8()); put(192); put((uint8_t)ptr); break; } break;
	case '1': put(vf_u8()); break; case '2': put(vf_u8()); put(vf_u8()); break;
	case '4': case '6': case '8': case 'G': for (int i = 0; i < (*f == 'G' ? 16 : *f - '0'); i++) put(vf_u8()); break;
	case 'S': { size_t n = vf_choose(3); put((uint8_t)n); for (size_t i = 0; i < n; i++) put(vf_u8()); break; }
	case 'R': for (size_t k = vf_choose(4); k; k--) { size_t n = vf_choose(3); put((uint8_t)n); for (size_t i = 0; i < n; i++) put(vf_u8()); } break;
	case 'P': { static const uint8_t pl[] = { 0, 1, 7, 8, 9, 64, 120, 121, 127, 128, 129, 255 }; uint8_t n = pl[vf_choose(12)]; put(n); if (n <= 128) for (int i = 0; i < (135 - n) / 8; i++) put(vf_u8()); break; }
	case 'T': for (size_t k = vf_choose(3); k; k--) { static const uint8_t bl[] = { 0, 1, 2, 31, 32, 33 }; uint8_t n = bl[vf_choose(6)]; put(vf_u8()); put(n); for (int i = 0; i < n; i++) put(vf_u8()); } break;
	case 'V': for (size_t k = vf_choose(3); k; k--) { uint8_t key = (uint8_t)vf_choose(8); if (key == 7) put16(0xffff); else put16(key); size_t n = vf_choose(k > 1 ? 3 : 5); if (n >= 3) n = key == 6 ? 16 : n; put16(n); for (size_t i = 0; i < n; i++) put(vf_u8()); } break;
	case 'B': for (size_t k = vf_choose(3); k; k--) put(vf_u8()); break;
	}
}
#endif
