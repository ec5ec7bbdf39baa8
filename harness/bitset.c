/* C11 bit sets */
#include "vp_alloc.h"
#include "libcork/ds/bitset.h"
#ifndef N
#define N 20
#define STEPS 3
#endif
static void scenario(struct cork_bitset *s, size_t n)
{
    bool m[N + 1];
    CHECK(s->bit_count == n, "bit count recorded");
    for (size_t i = 0; i < N; i++) m[i] = false;
    for (size_t i = 0; i < n; i++) CHECK(!cork_bitset_get(s, i), "new bit set is empty");
    if (n == 0) { cork_bitset_clear(s); return; }
    for (int k = 0; k < STEPS; k++) {
        size_t i = in_u8(); ASSUME(i < n);
        switch (in_choice(4)) {
        case 0: { int v = in_int(); cork_bitset_set(s, i, v); m[i] = v != 0; break; }
        case 1: { bool v = in_bool(); size_t j = i + 1; cork_bitset_set(s, j - 1, v); m[i] = v; break; }
        case 2: { unsigned v = in_uint(); cork_bitset_set(s, i, v & 0x100); m[i] = (v & 0x100) != 0; break; }
        case 3: cork_bitset_clear(s); for (size_t j = 0; j < N; j++) m[j] = false; break;
        }
        for (size_t j = 0; j < n; j++) CHECK(cork_bitset_get(s, j) == m[j], "every bit reads as last written");
    }
}
void h_bitset(void)
{
    struct cork_bitset s, *p;
    vp_alloc_install();
    size_t n = NB;
    if (in_bool()) {
        cork_bitset_init(&s, n); scenario(&s, n); cork_bitset_done(&s);
        WITNESS("on the stack");
    } else {
        p = cork_bitset_new(n); scenario(p, n); cork_bitset_free(p);
    }
    VP_NO_LEAK();
}

/* the size computed for any bit count: an allocator that hands out no memory
 * bigger than the arena but records what was asked */
static size_t asked;
static void *rec(const struct cork_alloc *a, size_t size) { (void) a; asked = size; return malloc(8); }
static void *rec2(const struct cork_alloc *a, size_t n, size_t size) { (void) a; asked = n * size; return calloc(1, 8); }
static void recf(const struct cork_alloc *a, void *p, size_t size) { (void) a; CHECK(size == asked, "freed with its size"); free(p); }
static const struct cork_alloc recorder = { NULL, NULL, NULL, rec2, rec, NULL, rec2, rec, NULL, recf };
void h_bitset_size(void)
{
    struct cork_bitset s;
    size_t n = in_size(); ASSUME(n <= 64);
    cork_allocator = &recorder;
    cork_bitset_init(&s, n);
    CHECK(s.byte_count == (n + 7) / 8 && asked >= (n + 7) / 8 && s.bit_count == n, "one bit of storage per bit");
    WITNESS("sized");
    cork_bitset_done(&s);
}
