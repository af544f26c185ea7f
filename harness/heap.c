// a priority queue: the contents are always what was put in and not taken out, and the top is a smallest element
#include "vf.h"
#include "libmy/heap.h"
#ifdef HUGE	// many elements in four orders, one of arbitrary priority; a third taken out, a third replaced, put in again, emptied
struct item { uint16_t key, in; };
static int cmp(const void *a, const void *b) { return (int)((const struct item *)a)->key - (int)((const struct item *)b)->key; }
static struct item it[1000]; static size_t n, used;
static void out_(struct heap *h, struct item *e) { vf_assert(e != NULL && e->in == 1, "an element that is in the heap"); e->in = 0; unsigned bad = 0; for (size_t j = 0; j < used; j++) if (it[j].in == 1) bad |= it[j].key < e->key; vf_assert(!bad, "a smallest element"); n--; }
void vf_main(void) {
	static const uint16_t num[] = { 17, 33, 65, 129, 257 }; size_t live = vf_live(); struct heap *h = heap_init(cmp); size_t m = num[vf_choose(5)], o = vf_choose(4), at = vf_choose(3); at = at == 0 ? 0 : at == 1 ? m / 2 : m - 1;
	for (size_t i = 0; i < m; i++) { it[used].key = (uint16_t)(o == 0 ? i : o == 1 ? m - i : o == 2 ? i * 37 % m : (i & 1 ? i : 1000 - i)); if (i == at) it[used].key = vf_u8(); it[used].in = 1; heap_push(h, &it[used++]); n++; vf_assert(heap_size(h) == n, "number of elements"); }
	for (size_t i = 0; i < m / 3; i++) { struct item *t = heap_peek(h); vf_assert(t == heap_get(h, 0), "top"); struct item *e = heap_pop(h); vf_assert(e == t, "the top is what is removed"); out_(h, e); }
	for (size_t i = 0; i < m / 3; i++) { it[used].key = (uint16_t)(i * 11 % 600); struct item *e = heap_replace(h, &it[used]); out_(h, e); it[used++].in = 1; n++; vf_assert(heap_size(h) == n, "number of elements"); }
	for (size_t i = 0; i < m / 3; i++) { it[used].key = (uint16_t)(i * 5 % 700); it[used].in = 1; heap_push(h, &it[used++]); n++; }
	for (size_t i = 0; i < n; i++) { struct item *e = heap_get(h, i); vf_assert(e && e->in == 1, "element"); e->in = 2; } for (size_t i = 0; i < used; i++) if (it[i].in) { vf_assert(it[i].in == 2, "each element once"); it[i].in = 1; }
	while (n) { vf_assert(heap_size(h) == n, "number of elements"); out_(h, heap_pop(h)); } vf_assert(heap_size(h) == 0 && heap_pop(h) == NULL, "and no more"); if (m == 257) vf_witness("many");
	heap_destroy(&h); vf_assert(h == NULL && vf_live() == live, "everything is freed");
}
#else
#ifndef START
#define START 0
#endif
struct item { uint8_t key, pad[7]; };
static int cmp(const void *a, const void *b) { return (int)((const struct item *)a)->key - (int)((const struct item *)b)->key; }
void vf_main(void) {
	size_t live = vf_live(); struct heap *h = heap_init(cmp); static struct item it[OPS + START]; static int in[OPS + START]; size_t n = 0, used = 0;
	vf_assert(heap_size(h) == 0 && heap_peek(h) == NULL && heap_pop(h) == NULL && heap_get(h, 0) == NULL && heap_replace(h, &it[0]) == NULL, "an empty heap yields nothing"); vf_assert(heap_size(h) == 0, "still empty");
#if START	// a heap of some size first: keys in one of several orders
	static const uint8_t ord[4][16] = { { 10,20,30,40,50,60,70,80,90,100,110,120,130,140,150,160 }, { 160,150,140,130,120,110,100,90,80,70,60,50,40,30,20,10 }, { 10,90,20,100,110,30,40,120,130,140,150,50,60,70,80,160 }, { 50,10,160,20,150,30,140,40,130,60,120,70,110,80,100,90 } };
	size_t st = vf_choose(START + 1), o = vf_choose(4); for (size_t i = 0; i < st; i++) { it[used].key = ord[o][i]; heap_push(h, &it[used]); in[used++] = 1; n++; }
#endif
	for (int s = 0; s < OPS; s++) {
		int op = n ? (int)vf_choose(3) : 0; struct item *out = NULL, *top = heap_peek(h);
		if (op != 1) it[used].key = vf_u8();
		if (op == 0) { heap_push(h, &it[used]); in[used++] = 1; n++; }
		else if (op == 1) { out = heap_pop(h); n--; }
		else { out = heap_replace(h, &it[used]); in[used++] = 2; }
		if (op) {
			vf_assert(out != NULL && out == top, "the top is what is removed"); size_t i = (size_t)vf_concrete((uint64_t)(out - it)); vf_assert(i < used && in[i] == 1, "an element that is in the heap"); in[i] = 0; vf_observe(i);
			if (op == 2) in[used - 1] = 1;
			unsigned bad = 0; for (size_t j = 0; j < used - (op == 2); j++) if (in[j]) bad |= it[j].key < it[i].key; vf_assert(!bad, "a smallest element");
			if (op == 1) vf_witness("popped"); else vf_witness("replaced");
		}
		vf_assert(heap_size(h) == n, "number of elements"); vf_assert(heap_get(h, n) == NULL && heap_get(h, (size_t)-1) == NULL, "nothing beyond the contents"); 
		unsigned seen = 0; for (size_t i = 0; i < n; i++) { struct item *e = heap_get(h, i); vf_assert(e != NULL, "element"); size_t j = (size_t)vf_concrete((uint64_t)(e - it)); vf_assert(in[j] == 1 && !(seen >> j & 1), "each element once"); seen |= 1u << j; }
		unsigned bad = 0; if (n) { struct item *t = heap_peek(h); for (size_t j = 0; j < used; j++) if (in[j]) bad |= it[j].key < t->key; vf_assert(t == heap_get(h, 0), "top"); } vf_assert(!bad, "the top is a smallest element");
	}
	if (n >= 3) vf_witness("three");
#if START
	unsigned last = 0; while (n) {	// all come out, in order
		struct item *out = heap_pop(h); n--; vf_assert(out != NULL, "as many as were put in"); size_t i = (size_t)vf_concrete((uint64_t)(out - it)); vf_assert(i < used && in[i] == 1, "each once"); in[i] = 0; vf_assert(out->key >= last, "in order"); last = out->key; }
	vf_assert(heap_size(h) == 0 && heap_pop(h) == NULL, "and no more");
#endif
	heap_destroy(&h); vf_assert(h == NULL && vf_live() == live, "everything is freed"); heap_destroy(&h);
}
#endif
