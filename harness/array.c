/* C14 array contents, C15 element lifecycle, against a reference array. */
#include "vp_alloc.h"
#include "libcork/ds/array.h"
#ifndef STEPS
#define STEPS 1
#define PRE 0
#define DROP 0
#define TAIL 0
#define RESERVE 2
#endif
#ifndef DPRE
#define DPRE 0
#endif
#define MAXN 12

typedef cork_array(uint32_t) u32_array;

static void check_same(u32_array *a, const uint32_t *m, size_t n)
{
    CHECK(cork_array_size(a) == n, "size");
    CHECK(cork_array_is_empty(a) == (n == 0), "is_empty");
    CHECK(cork_raw_array_size(cork_array_to_raw(a)) == n, "raw size");
    CHECK(cork_raw_array_is_empty(cork_array_to_raw(a)) == (n == 0), "raw is_empty");
    for (size_t i = 0; i < n; i++) {
        CHECK(cork_array_at(a, i) == m[i], "elements in order");
        CHECK(cork_array_elements(a)[i] == m[i], "elements in order");
        CHECK(*(uint32_t *) cork_raw_array_at(cork_array_to_raw(a), i) == m[i], "elements in order");
    }
}

/* every sequence of appends, removals, clears and reservations */
void h_array_ops(void)
{
    u32_array a;
    uint32_t m[MAXN]; size_t n = 0, peak = 0;
    vp_alloc_install();
    cork_array_init(&a);
    CHECK(cork_raw_array_element_size(cork_array_to_raw(&a)) == sizeof(uint32_t), "element size");
    CHECK(cork_array_element_size(&a) == sizeof(uint32_t), "element size");
    for (int i = 0; i < PRE; i++) { uint32_t v = in_u32(); cork_array_append(&a, v); m[n++] = v; }
    if (DROP > 0) { cork_array_remove_range(&a, 0, DROP); for (size_t k = 0; k + DROP < n; k++) m[k] = m[k + DROP]; n -= DROP; }
    for (int s = 0; s < STEPS; s++) {
        switch (in_choice(5)) {
        case 0: { uint32_t v = in_u32(); cork_array_append(&a, v); m[n++] = v; break; }
        case 1: { uint32_t v = in_u32(), *p = cork_array_append_get(&a); *p = v; m[n++] = v; break; }
        case 2: {
            size_t i = in_choice(MAXN), c = in_choice(MAXN);
            ASSUME(i <= n && c <= n - i);
            if (c == 1) cork_array_remove(&a, i); else cork_array_remove_range(&a, i, c);
            for (size_t k = 0; k + i + c < n; k++) m[i + k] = m[i + k + c];
            n -= c;
            break; }
        case 3: cork_array_clear(&a);  n = 0; break;
        case 4: {
            cork_array_ensure_size(&a, RESERVE);
            uint32_t *before = cork_array_elements(&a);
            /* room for RESERVE elements: appending up to there does not move them */
            size_t keep = n;
            while (n < RESERVE && n < keep + 2) { cork_array_append(&a, (uint32_t) n); m[n] = (uint32_t) n; n++; }
            CHECK(n > RESERVE || cork_array_elements(&a) == before, "reserved space is enough for the reserved count");
            break; }
        }
        if (n > peak) peak = n;
        check_same(&a, m, n);
    }
    for (int i = 0; i < TAIL; i++) {
        uint32_t v = in_u32(); cork_array_append(&a, v); m[n++] = v;
        check_same(&a, m, n);
    }
    WITNESS("done");
    cork_array_done(&a);
    VP_NO_LEAK();
}

/* copying between arrays in any state */
static int copy_fail_at, copies;
static int copy_elem(void *ud, void *d, const void *s)
{
    CHECK(ud == &copies, "copy callback gets its user data");
    if (copies++ == copy_fail_at) return -1;
    *(uint32_t *) d = *(const uint32_t *) s + 1;
    return 0;
}
void h_array_copy(void)
{
    u32_array a, b; uint32_t ma[MAXN], mb[MAXN]; size_t na = 0, nb = 0;
    vp_alloc_install();
    cork_array_init(&a); cork_array_init(&b);
    for (int i = 0; i < PRE; i++) { uint32_t v = in_u32(); cork_array_append(&a, v); ma[na++] = v; }
    for (int i = 0; i < DPRE; i++) { uint32_t v = in_u32(); cork_array_append(&b, v); mb[nb++] = v; }
    if (DROP > 0) { cork_array_remove_range(&b, 0, DROP); for (size_t k = 0; k + DROP < nb; k++) mb[k] = mb[k + DROP]; nb -= DROP; }
    bool with = in_bool();
    copy_fail_at = in_choice(MAXN); copies = 0;
    int rc = cork_array_copy(&b, &a, with ? copy_elem : NULL, &copies);
    if (with && copy_fail_at < (int) na) {
        CHECK(rc != 0, "failure of the copy callback is returned");
        CHECK(copies == copy_fail_at + 1, "copying stops at the failure");
    } else {
        CHECK(rc == 0, "copy succeeds");
        for (size_t i = 0; i < na; i++) mb[i] = ma[i] + (with ? 1 : 0);
        nb = na;
        check_same(&b, mb, nb);
        uint32_t v = in_u32(); cork_array_append(&b, v); mb[nb++] = v;
        check_same(&b, mb, nb);
    }
    check_same(&a, ma, na);
    WITNESS("done");
    cork_array_done(&a); cork_array_done(&b);
    VP_NO_LEAK();
}
