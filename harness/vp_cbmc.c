/* Solver-side runtime: the input channel, and abort() as a failed check. */
#include <stdint.h>
uint64_t vp_in;
#ifndef VP_OWN_ABORT
void abort(void) {
    __CPROVER_assert(0, "CHECK: library aborted the process");
    __CPROVER_assume(0);
}
#endif
