// Two threads under a scheduler whose decisions are input: the same code runs in the engine and natively.
#ifndef THREADS_H
#define THREADS_H
#include "vf.h"
void vf_parallel(void (*f0)(void *), void *a0, void (*f1)(void *), void *a1, int preemptions);   // returns when both have returned
void vf_shared(const void *p, size_t n);      // writes to these octets are scheduling points (besides all accesses to writable static data)
void vf_shared_all(void);                     // all accesses are
void vf_point(void);                          // a scheduling point
int vf_other_done(void);
int vf_thread(void);                          // 0 or 1 within vf_parallel
extern int vf_switched, vf_points;            // number of preemptions so far, of scheduling points
void vf_co_start(void (*f)(void *), void *a); void vf_co_switch(void); int vf_is_static(const void *p);
#endif
