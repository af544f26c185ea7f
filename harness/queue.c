// P39: one producer, one consumer, every interleaving of their memory accesses
#include "threads.h"
struct my_queue;
#if MUTEX
#define Q(x) my_queue_mutex_##x
#else
#define Q(x) my_queue_mb_##x
#endif
struct my_queue *Q(init)(unsigned, unsigned); void Q(destroy)(struct my_queue **); bool Q(insert)(struct my_queue *, void *, unsigned *); bool Q(remove)(struct my_queue *, void *, unsigned *);
#ifndef ELEM
#define ELEM 2
#endif
#define CAP ((int)size - 1)
static struct my_queue *q; static unsigned size; static uint8_t sent[16][ELEM]; static int ins, rem, inIns, inRem, np, nc;
static void insert1(void) {
	uint8_t e[ELEM]; for (int k = 0; k < ELEM; k++) e[k] = sent[ins][k] = vf_u8();
	unsigned sp = 12345; int r0 = rem; inIns = 1; bool ok = Q(insert)(q, e, &sp); inIns = 0; int r1 = rem + inRem;   // the queue held between ins-r1 and ins-r0
	for (int k = 0; k < ELEM; k++) vf_assert(e[k] == sent[ins][k], "the element given is left as it is");
	if (!ok) { vf_assert(ins - r0 >= CAP, "an insertion is refused only when the queue is full"); vf_assert(sp == 0, "a full queue has no space"); vf_witness("full"); return; }
	vf_assert(ins - r1 < CAP, "no more than the capacity is inserted");
	ins++;
	vf_assert((int)sp >= CAP - (ins - r0) && (int)sp <= CAP - (ins - r1), "the space left is right");
}
static void remove1(void) {
	uint8_t e[ELEM + 2]; for (int k = 0; k < ELEM + 2; k++) e[k] = 0xee;
	unsigned ct = 12345; int i0 = ins; inRem = 1; bool ok = Q(remove)(q, e, &ct); inRem = 0; int i1 = ins + inIns;
	if (!ok) { vf_assert(i0 - rem <= 0, "a removal is refused only when the queue is empty"); vf_assert(ct == 0, "an empty queue has no elements"); vf_witness("empty"); for (int k = 0; k < ELEM; k++) vf_assert(e[k] == 0xee, "a refused removal leaves the output alone"); return; }
	vf_assert(i1 - rem > 0, "nothing is removed before it is inserted");
	for (int k = 0; k < ELEM; k++) vf_assert(e[k] == sent[rem][k], "elements come out unaltered, once, in order");
	vf_assert(e[ELEM] == 0xee && e[ELEM + 1] == 0xee, "only the element is written");
	rem++;
	vf_assert((int)ct >= i0 - rem && (int)ct <= i1 - rem, "the count left is right");
	vf_observe_bytes(e, ELEM);
}
static void producer(void *a) { for (int i = 0; i < np; i++) insert1(); }
static void consumer(void *a) { for (int i = 0; i < nc; i++) remove1(); }
void vf_main(void) {
	size_t l0 = vf_live(); size = 2 << vf_choose(SIZES);
	vf_assert(!Q(init)(0, ELEM) && !Q(init)(1, ELEM) && !Q(init)(3, ELEM) && !Q(init)(6, ELEM), "sizes that are no power of two are refused");
	q = Q(init)(size, ELEM); vf_assert(q != NULL, "a queue is made");
	int pre = vf_choose(size + 1); for (int i = 0; i < pre; i++) { insert1(); if (i || pre > (int)size / 2) remove1(); }   // start anywhere in the ring, empty or not
	np = OPS; nc = OPS; vf_shared_all();
	vf_parallel(producer, 0, consumer, 0, PRE);
	if (vf_switched == PRE) vf_witness("preempted");
	while (rem < ins) remove1();
	remove1();
	for (int i = 0; i < CAP + 1; i++) insert1();
	uint8_t e[ELEM] = { 0 };	// the counts may be left out
	vf_assert(!Q(insert)(q, e, NULL), "a full queue refuses"); vf_assert(Q(remove)(q, e, NULL), "a full queue yields"); for (int k = 0; k < ELEM; k++) vf_assert(e[k] == sent[rem][k], "without a count as with one");
	vf_assert(Q(insert)(q, e, NULL), "there is space for one"); for (int i = 0; i < CAP; i++) vf_assert(Q(remove)(q, e, NULL), "all come out"); vf_assert(!Q(remove)(q, e, NULL), "an empty queue yields nothing");
	Q(destroy)(&q); vf_assert(q == NULL && vf_live() == l0, "nothing is leaked"); Q(destroy)(&q);
}
