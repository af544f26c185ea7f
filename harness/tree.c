// P45: red-black and splay trees: the contents are the keys put in and not taken out, in order, each once
#include "vf.h"
#include "libmy/tree.h"
struct item { uint8_t key; union { RB_ENTRY(item) rb; SPLAY_ENTRY(item) sp; } e; uint8_t in; };
static int cmp(struct item *a, struct item *b) { return (int)a->key - (int)b->key; }
#if SPLAY
SPLAY_HEAD(t, item); SPLAY_PROTOTYPE(t, item, e.sp, cmp) SPLAY_GENERATE(t, item, e.sp, cmp)
#define L(x) SPLAY_LEFT(x, e.sp)
#define R(x) SPLAY_RIGHT(x, e.sp)
#define ROOT(h) SPLAY_ROOT(h)
#else
RB_HEAD(t, item); RB_PROTOTYPE(t, item, e.rb, cmp) RB_GENERATE(t, item, e.rb, cmp)
#define L(x) RB_LEFT(x, e.rb)
#define R(x) RB_RIGHT(x, e.rb)
#define ROOT(h) RB_ROOT(h)
#endif
static struct t head; static struct item it[START + OPS]; static size_t used, n, seen; static struct item *order[START + OPS];
// in order; returns the number of black nodes down to a leaf
static int walk(struct item *x, int depth, int parentRed) {
	if (!x) return 1;
	vf_assert(depth < START + OPS, "the tree is no deeper than its size"); vf_assert(x >= it && x < it + used && x->in, "only elements that were put in");
#if !SPLAY
	int red = RB_COLOR(x, e.rb) == RB_RED; vf_assert(!(red && parentRed), "no two red nodes in a row"); if (L(x)) vf_assert(RB_PARENT(L(x), e.rb) == x, "parent"); if (R(x)) vf_assert(RB_PARENT(R(x), e.rb) == x, "parent");
#else
	int red = 0;
#endif
	int a = walk(L(x), depth + 1, red); vf_assert(seen < n, "no more elements than were put in"); order[seen++] = x; int b = walk(R(x), depth + 1, red);
#if !SPLAY
	vf_assert(a == b, "the same number of black nodes on every way down");
#endif
	return a + !red;
}
static void check(void) {
	seen = 0; walk(ROOT(&head), 0, 0); vf_assert(seen == n, "every element that was put in");
	for (size_t i = 0; i + 1 < n; i++) vf_assert(order[i]->key < order[i + 1]->key, "elements are in order");
#if !SPLAY
	if (n) vf_assert(RB_PARENT(ROOT(&head), e.rb) == NULL, "the root has no parent"); vf_assert(RB_EMPTY(&head) == (n == 0), "emptiness");
	vf_assert(RB_MIN(t, &head) == (n ? order[0] : NULL) && RB_MAX(t, &head) == (n ? order[n - 1] : NULL), "first and last");
	struct item *x; size_t i = 0; RB_FOREACH(x, t, &head) { vf_assert(i < n && x == order[i], "forward"); i++; } vf_assert(i == n, "forward");
	RB_FOREACH_REVERSE(x, t, &head) { vf_assert(i > 0 && x == order[i - 1], "backward"); i--; } vf_assert(i == 0, "backward");
#else
	vf_assert(SPLAY_EMPTY(&head) == (n == 0), "emptiness");
#endif
}
static struct item *same(uint8_t k) { for (size_t i = 0; i < used; i++) if (it[i].in) if (it[i].key == k) return &it[i]; return NULL; }
static void insert(struct item *x) {
	struct item *old = same(x->key); x->in = 1;
#if SPLAY
	struct item *r = SPLAY_INSERT(t, &head, x);
#else
	struct item *r = RB_INSERT(t, &head, x);
#endif
	vf_assert(r == old, "putting in a key that is there yields the element there"); if (old) { x->in = 0; vf_witness("there already"); } else n++;
}
void vf_main(void) {
#if SPLAY
	SPLAY_INIT(&head);
#else
	RB_INIT(&head);
#endif
	size_t m = vf_choose(START + 1), pat = START ? vf_choose(4) : 0;
	for (size_t i = 0; i < m; i++) { size_t k = pat == 0 ? i : pat == 1 ? m - 1 - i : pat == 2 ? (i & 1 ? m - 1 - i / 2 : i / 2) : (i * 5 + 2) % 13; it[used].key = 2 * k + 1; insert(&it[used++]); }
	check();
	for (int s = 0; s < OPS; s++) {
		struct item q; q.key = vf_u8(); size_t op = vf_choose(3);
#if START
		vf_assume(q.key <= 2 * m + 2 || (pat == 3 && q.key <= 27));
#endif
		if (op == 0) { it[used].key = q.key; used++; insert(&it[used - 1]); }
		else if (op == 1) {
			struct item *x = same(q.key);
#if SPLAY
			struct item *r = SPLAY_REMOVE(t, &head, x ? x : &q); vf_assert(r == x, "what is taken out is what was there");
#else
			vf_assert(RB_FIND(t, &head, &q) == x, "found"); if (x) vf_assert(RB_REMOVE(t, &head, x) == x, "taken out");
#endif
			if (x) { x->in = 0; n--; memset(&x->e, 0xee, sizeof x->e); vf_witness("taken out"); }
		} else {
			struct item *x = same(q.key), *up = NULL; for (size_t i = 0; i < used; i++) if (it[i].in) if (it[i].key >= q.key) { if (!up) up = &it[i]; else if (it[i].key < up->key) up = &it[i]; }
#if SPLAY
			vf_assert(SPLAY_FIND(t, &head, &q) == x, "found"); if (x) vf_assert(SPLAY_NEXT(t, &head, x) == ({ struct item *nx = NULL; for (size_t i = 0; i < used; i++) if (it[i].in) if (it[i].key > q.key) { if (!nx) nx = &it[i]; else if (it[i].key < nx->key) nx = &it[i]; } nx; }), "next");
			if (n) { struct item *lo = SPLAY_MIN(t, &head); check(); vf_assert(lo == order[0], "first"); struct item *hi = SPLAY_MAX(t, &head); check(); vf_assert(hi == order[n - 1], "last"); } else vf_assert(SPLAY_MIN(t, &head) == NULL && SPLAY_MAX(t, &head) == NULL, "nothing");
#else
			vf_assert(RB_FIND(t, &head, &q) == x, "found"); vf_assert(RB_NFIND(t, &head, &q) == up, "the first that is not smaller");
#endif
			if (x) vf_witness("found");
		}
		check(); vf_observe(n);
	}
}
