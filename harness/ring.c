#include "vp.h"
#include "libcork/ds/ring-buffer.h"

#ifndef STEPS
#define STEPS 8
#endif

/* any sequence of adds, pops and peeks against a reference FIFO */
void h_ring_fifo(void)
{
    struct cork_ring_buffer rb;
    const size_t cap = CAP;
    void *model[STEPS + 1];
    size_t head = 0, tail = 0;      /* model[head..tail) */
    bool wrapped = false;
    CHECK(cork_ring_buffer_init(&rb, cap) == 0, "init succeeds");
    for (int i = 0; i < STEPS; i++) {
        unsigned op = in_choice(3);
        CHECK(cork_ring_buffer_is_empty(&rb) == (head == tail), "empty iff nothing queued");
        CHECK(cork_ring_buffer_is_full(&rb) == (tail - head == cap), "full iff capacity elements queued");
        if (op == 0) {
            void *e = (void *) (uintptr_t) in_u64();
            int rc = cork_ring_buffer_add(&rb, e);
            if (tail - head == cap) {
                CHECK(rc == -1, "add to a full buffer is refused");
            } else {
                CHECK(rc == 0, "add to a non-full buffer succeeds");
                model[tail++] = e;
                if (tail > cap) wrapped = true;
            }
        } else if (op == 1) {
            void *e = cork_ring_buffer_pop(&rb);
            if (head == tail) CHECK(e == NULL, "pop of an empty buffer is NULL");
            else { CHECK(e == model[head], "pop returns the oldest element"); head++; }
        } else {
            void *e = cork_ring_buffer_peek(&rb);
            if (head == tail) CHECK(e == NULL, "peek of an empty buffer is NULL");
            else CHECK(e == model[head], "peek returns the oldest element");
        }
    }
    if (wrapped) WITNESS("wrapped");
    cork_ring_buffer_done(&rb);
}
