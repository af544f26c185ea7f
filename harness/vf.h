// Harness interface.  The same harness is executed symbolically (vsym) and natively (replay).
#ifndef VF_H
#define VF_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

uint8_t vf_u8(void);                            // next input byte: symbolic / from the replay file
void vf_assume(int c);
void vf_assert_(int c, const char *msg);
void vf_witness(const char *name);              // marks a situation that must be reachable
void vf_observe(uint64_t v);                    // result compared between engine and native run; must be initialised
size_t vf_live(void);                           // live heap allocations
int vf_is_init(const void *p, size_t n);
uint64_t vf_concrete(uint64_t v);               // one path per feasible value
int vf_in_engine(void);
void vf_readonly(void *p, int on);
void vf_set_file(const char *data, size_t n);        // what fopen() of any name opens; NULL: fopen fails
FILE *vf_mem_file(void);                          // a stream that collects what is written to it
char *vf_mem_done(FILE *f);                       // closes it; NUL-terminated, to be freed
size_t vf_objleft(const void *p);               // octets from p to the end of its object

#define VF_STR2(x) #x
#define VF_STR(x) VF_STR2(x)
#define vf_assert(c, msg) vf_assert_(!!(c), msg)

static inline uint16_t vf_u16(void) { uint16_t h = vf_u8(); return (uint16_t)(h << 8 | vf_u8()); }
static inline uint32_t vf_u32(void) { uint32_t h = vf_u16(); return h << 16 | vf_u16(); }
static inline uint64_t vf_u64(void) { uint64_t h = vf_u32(); return h << 32 | vf_u32(); }
// 0 .. n-1, one path per value (n <= 65536)
static inline size_t vf_choose(size_t n) { size_t hi = 0; if (n > 256) { uint8_t h = vf_u8(); vf_assume(h < (n + 255) / 256); hi = (size_t)vf_concrete(h) << 8; } uint8_t b = vf_u8(); vf_assume(hi + b < n); return hi + (size_t)vf_concrete(b); }
static inline void vf_fill(uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = vf_u8(); }
// a buffer of exactly n octets with arbitrary content
// (n == 0: no octet of the object may be touched)
static inline uint8_t *vf_buf(size_t n) { if (!n) return vf_in_engine() ? malloc(0) : (uint8_t *)malloc(1) + 1; uint8_t *p = malloc(n); vf_fill(p, n); return p; }
static inline void vf_observe_bytes(const void *p, size_t n) { uint64_t h = 0; const uint8_t *q = p; for (size_t i = 0; i < n; i++) { h = h << 8 | q[i]; if (i % 8 == 7) { vf_observe(h); h = 0; } } if (n % 8) vf_observe(h); }
// copy of exactly n octets
static inline uint8_t *vf_dup(const void *p, size_t n) { uint8_t *q = malloc(n); if (n) memcpy(q, p, n); return q; }
#endif
