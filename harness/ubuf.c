// growable buffers: any sequence of operations leaves exactly what a plain array would hold
#include "vf.h"
#include "libmy/ubuf.h"
#define CAP 64
#if MODE == 0
typedef struct { uint8_t b[3]; } elem;
VECTOR_GENERATE(ev, elem)
static elem m[CAP]; static size_t n;
static elem fresh(void) { elem e; for (int i = 0; i < 3; i++) e.b[i] = vf_u8(); return e; }
static void check(ev *v) {
	vf_assert(ev_size(v) == n && ev_bytes(v) == n * sizeof(elem), "number of elements"); vf_assert(ev_data(v) != NULL && ev_ptr(v) == ev_data(v) + n, "pointer to the end");
	for (size_t i = 0; i < n; i++) { elem e = ev_value(v, i); vf_assert(memcmp(&e, &m[i], sizeof e) == 0, "element"); }
}
void vf_main(void) {
	size_t live = vf_live(); unsigned hint = (unsigned)vf_choose(4); ev *v = ev_init(hint); size_t spare = hint ? hint : 1; check(v);
	for (int s = 0; s < OPS; s++) {
		size_t op = vf_choose(8), k; elem e[4];
		switch (op) {
		case 0: m[n] = fresh(); ev_add(v, m[n]); n++; break;
		case 1: k = vf_choose(4); for (size_t i = 0; i < k; i++) m[n + i] = e[i] = fresh(); ev_append(v, e, k); n += k; if (k == 3) vf_witness("appended"); break;
		case 2: k = vf_choose(6); ev_reserve(v, k); vf_assert(vf_objleft(ev_ptr(v)) >= k * sizeof(elem), "room for what was reserved"); k = k ? vf_choose(2) * k : 0; for (size_t i = 0; i < k; i++) { m[n + i] = fresh(); ev_ptr(v)[i] = m[n + i]; } ev_advance(v, k); n += k; if (k == 5) vf_witness("advanced"); break;
		case 3: k = vf_choose(n + 2); ev_clip(v, k); if (k < n) { n = k; vf_witness("clipped"); } break;
		case 4: ev_reset(v); n = 0; break;
		case 5: { elem *o; size_t z; ev_detach(v, &o, &z); vf_assert(z == n, "detached size"); vf_assert(n == 0 || memcmp(o, m, n * sizeof(elem)) == 0, "detached content"); free(o); if (n) vf_witness("detached"); n = 0; break; }
		case 6: { ev *w = ev_init(1); k = vf_choose(3); for (size_t i = 0; i < k; i++) { m[n + i] = fresh(); ev_add(w, m[n + i]); } ev_extend(v, w); n += k; vf_assert(ev_size(w) == k, "the other is unchanged"); ev_destroy(&w); vf_assert(w == NULL, "destroyed"); break; }
		case 7: free(ev_data(v)); ev_reinit((unsigned)vf_choose(3), v); n = 0; break;
		}
		check(v);
		spare = vf_objleft(ev_data(v)) / sizeof(elem); vf_assert(spare >= n, "storage");
	}
	ev_destroy(&v); vf_assert(v == NULL && vf_live() == live, "everything is freed"); ev_destroy(&v);
}
#elif MODE == 2	// large pieces
static uint8_t m[600000], piece[80000]; static size_t n;
void vf_main(void) {
	static const uint32_t sz[] = { 0, 1, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 5000, 65535, 65536, 70000 };
	size_t live = vf_live(); ubuf *u = vf_choose(2) ? ubuf_new() : ubuf_init(1); for (int s = 0; s < OPS; s++) {
		size_t k = sz[vf_choose(20)], op = vf_choose(s ? 7 : 5); memset(piece, 'A' + s, k); if (k) { piece[0] = vf_u8(); vf_assume(piece[0] != 0); } piece[k] = 0;
		switch (op) {
		case 0: ubuf_append(u, piece, k); break;
		case 1: ubuf_add_cstr(u, (char *)piece); break;
		case 2: ubuf_add_fmt(u, "%s", (char *)piece); vf_witness("formatted"); break;
		case 3: ubuf_reserve(u, k); vf_assert(vf_objleft(ubuf_ptr(u)) >= k, "room for what was reserved"); memcpy(ubuf_ptr(u), piece, k); ubuf_advance(u, k); break;
		case 4: { ubuf *w = ubuf_init(3); ubuf_append(w, piece, k); ubuf_extend(u, w); ubuf_destroy(&w); break; }
		case 5: ubuf_clip(u, k); if (k < n) n = k; k = 0; break;
		case 6: if (k & 1) { uint8_t *o; size_t z; ubuf_detach(u, &o, &z); vf_assert(z == n && memcmp(o, m, n) == 0, "detached"); free(o); } else ubuf_reset(u); n = 0; k = 0; break;
		}
		memcpy(m + n, piece, k); n += k; vf_assert(ubuf_size(u) == n && ubuf_ptr(u) == ubuf_data(u) + n, "size"); vf_assert(memcmp(ubuf_data(u), m, n) == 0, "content"); vf_assert(vf_objleft(ubuf_data(u)) >= n, "storage"); if (n > 100000) vf_witness("grown");
	}
	ubuf_destroy(&u); vf_assert(vf_live() == live, "everything is freed");
}
#else
static uint8_t m[CAP + 128]; static size_t n;
static void check(ubuf *u) { vf_assert(ubuf_size(u) == n && ubuf_ptr(u) == ubuf_data(u) + n, "size"); vf_assert(n == 0 || memcmp(ubuf_data(u), m, n) == 0, "content"); vf_assert(vf_objleft(ubuf_data(u)) >= n, "storage"); }
static void unterm(void) { n -= (size_t)vf_concrete((n > 0) & (m[n ? n - 1 : 0] == 0)); }
void vf_main(void) {
	size_t live = vf_live(); ubuf *u; size_t k; char t[8];
	if (vf_choose(2)) u = ubuf_new(); else { k = vf_choose(4); for (size_t i = 0; i < k; i++) { t[i] = (char)vf_u8(); vf_assume(t[i] != 0); m[i] = (uint8_t)t[i]; } t[k] = 0; u = ubuf_dup_cstr(t); n = k; }
	check(u);
	for (int s = 0; s < OPS; s++) {
		switch (vf_choose(8)) {
		case 0: k = vf_choose(4); for (size_t i = 0; i < k; i++) t[i] = (char)(m[n + i] = vf_u8()); ubuf_append(u, (uint8_t *)t, k); n += k; break;
		case 1: unterm(); k = vf_choose(4); for (size_t i = 0; i < k; i++) { t[i] = (char)(m[n + i] = vf_u8()); vf_assume(t[i] != 0); } t[k] = 0; ubuf_add_cstr(u, t); n += k; vf_witness("text"); break;
		case 2: ubuf_cterm(u); if (!vf_concrete((n > 0) & (m[n ? n - 1 : 0] == 0))) m[n++] = 0; break;
		case 3: { char *c = ubuf_cstr(u); if (!vf_concrete((n > 0) & (m[n ? n - 1 : 0] == 0))) m[n++] = 0; vf_assert(c == (char *)ubuf_data(u), "the text is the content"); break; }
		case 4: { unsigned d = (unsigned)vf_choose(3) * 99; unterm(); ubuf_add_fmt(u, "<%u>", d); char w[8]; k = (size_t)snprintf(w, sizeof w, "<%u>", d); memcpy(m + n, w, k); n += k; vf_witness("formatted"); break; }
		case 5: { uint8_t c = vf_u8(); ubuf_rstrip(u, (char)c); n -= (size_t)vf_concrete((n > 0) & (m[n ? n - 1 : 0] == c)); break; }
		case 6: ubuf_append_cstr_lit(u, "ab"); m[n++] = 'a'; m[n++] = 'b'; break;
		case 7: k = 62 + vf_choose(4); ubuf_reserve(u, k); vf_assert(vf_objleft(ubuf_ptr(u)) >= k, "room for what was reserved"); if (n < 60) { memset(ubuf_ptr(u), 'x', k); memset(m + n, 'x', k); ubuf_advance(u, k); n += k; vf_witness("grown"); } break;
		}
		check(u);
	}
	ubuf_destroy(&u); vf_assert(u == NULL && vf_live() == live, "everything is freed");
}
#endif
