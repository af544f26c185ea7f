// P45: doubly linked lists: two lists hold exactly the sequences that the operations made
#include "vf.h"
#include "libmy/list.h"
struct item { uint8_t key; ISC_LINK(struct item) link; };
typedef ISC_LIST(struct item) lst;
static lst l[2]; static struct item it[OPS]; static int seq[2][OPS], n[2];
static void put(int w, int at, int e) { for (int i = n[w]; i > at; i--) seq[w][i] = seq[w][i - 1]; seq[w][at] = e; n[w]++; }
static void check(int w) {
	struct item *x = ISC_LIST_HEAD(l[w]), *p = NULL; int i = 0;
	for (; x; p = x, x = ISC_LIST_NEXT(x, link), i++) { vf_assert(i < n[w], "no more than was put in"); vf_assert(x == &it[seq[w][i]], "forward"); vf_assert(ISC_LIST_PREV(x, link) == p, "backward"); vf_assert(ISC_LINK_LINKED(x, link), "linked"); }
	vf_assert(i == n[w], "everything that was put in"); vf_assert(ISC_LIST_TAIL(l[w]) == p, "last"); vf_assert(ISC_LIST_EMPTY(l[w]) == (n[w] == 0), "emptiness");
}
void vf_main(void) {
	ISC_LIST_INIT(l[0]); ISC_LIST_INIT(l[1]); check(0); check(1); int used = 0;
	for (int s = 0; s < OPS; s++) {
		uint8_t c = vf_u8(); size_t op = c & 7; int w = c >> 3 & 1, at = c >> 4 & 15; op = vf_concrete(op); w = (int)vf_concrete(w); vf_assume(op < 6);
		if (op == 2 || op == 3 || op == 4) { vf_assume(at < n[w]); at = (int)vf_concrete(at); } else vf_assume(at == 0);
		struct item *e = NULL; if (op < 4) { e = &it[used]; e->key = used; ISC_LINK_INIT(e, link); vf_assert(!ISC_LINK_LINKED(e, link), "not linked yet"); }
		switch (op) {
		case 0: ISC_LIST_PREPEND(l[w], e, link); put(w, 0, used++); break;
		case 1: ISC_LIST_APPEND(l[w], e, link); put(w, n[w], used++); break;
		case 2: ISC_LIST_INSERTBEFORE(l[w], &it[seq[w][at]], e, link); put(w, at, used++); vf_witness("before"); break;
		case 3: ISC_LIST_INSERTAFTER(l[w], &it[seq[w][at]], e, link); put(w, at + 1, used++); vf_witness("after"); break;
		case 4: e = &it[seq[w][at]]; ISC_LIST_UNLINK(l[w], e, link); vf_assert(!ISC_LINK_LINKED(e, link), "no longer linked"); n[w]--; for (int i = at; i < n[w]; i++) seq[w][i] = seq[w][i + 1]; vf_witness("unlinked"); break;
		default: if (w) ISC_LIST_APPENDLIST(l[1], l[0], link); else ISC_LIST_APPENDLIST(l[0], l[1], link); if (n[0] && n[1]) vf_witness("joined"); for (int i = 0; i < n[!w]; i++) seq[w][n[w] + i] = seq[!w][i]; n[w] += n[!w]; n[!w] = 0; break;
		}
		check(0); check(1); vf_observe(n[0] * 16 + n[1]);
	}
}
