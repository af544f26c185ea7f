// P52: every registered thread has a number of its own, from 0 on
#include "threads.h"
#include "libmy/threadnum.h"
static int early, got[2], again[2]; static bool reg[2];
static void run(void *a) {
	int i = *(int *)a; vf_point();
	if (!reg[i]) { vf_assert(my_threadnum() == (i || !early ? 0 : early - 1), "what another thread registers is not this thread's number"); return; }
	my_threadnum_register(); got[i] = my_threadnum(); vf_point(); again[i] = my_threadnum();
}
void vf_main(void) {
	early = (int)vf_choose(4); for (int k = 0; k < early; k++) { my_threadnum_register(); vf_assert(my_threadnum() == k, "numbers are given in order"); }
	reg[0] = vf_choose(2); reg[1] = vf_choose(2); int id[2] = { 0, 1 };
	vf_parallel(run, &id[0], run, &id[1], PRE);
	for (int i = 0; i < 2; i++) if (reg[i]) { vf_assert(got[i] == again[i], "a thread keeps its number"); vf_assert(got[i] >= early && got[i] < early + reg[0] + reg[1], "numbers are given without gaps"); vf_observe((uint64_t)got[i]); }
	if (reg[0] && reg[1]) { vf_assert(got[0] != got[1], "no number is given twice"); vf_witness("both"); if (got[0] > got[1]) vf_witness("second first"); }
	if (vf_switched) vf_witness("preempted");
	vf_assert(my_threadnum() == (reg[0] ? got[0] : early ? early - 1 : 0), "a thread keeps its number");
}
