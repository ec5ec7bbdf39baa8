/* A checking allocator installed as libcork's current allocator, in the solver
 * run and in native replays alike: every free and realloc must name a live
 * block and pass its exact size, and at the end nothing may be left. */
#ifndef VP_ALLOC_H
#define VP_ALLOC_H
#include "vp.h"
#include "libcork/core/allocator.h"
#ifndef VP_BLOCKS
#define VP_BLOCKS 24
#endif
#ifndef VP_ALLOC_LIMIT
#define VP_ALLOC_LIMIT 4096
#endif
static struct { void *p; size_t size; } vp_blk[VP_BLOCKS];
static unsigned vp_nblk, vp_live;
/* no allocation from here on: paths that need more memory are outside the bounds */
static bool vp_frozen;

/* The solver's heap: objects of exactly the requested size.  With VP_LIGHT a
 * freed block is overwritten instead of being marked dead, which keeps
 * thousands of "is it freed" side conditions out of the query; a stale pointer
 * read from it names no object. */
#define VP_STALE 0xa5a5a5a5a5a5a5a5u
#define VP_STALE_MAX 256
#if defined(VP_REPLAY) || !defined(VP_LIGHT)
#define vp_mem_get(size)    malloc(size)
#define vp_mem_drop(p, sz)  free(p)
#else
static void *vp_mem_get(size_t size) { return __CPROVER_allocate(size, 0); }
static void vp_mem_drop(void *p, size_t sz)
#ifdef VP_STALE_ANY
{ (void) sz; if (p != NULL) __CPROVER_havoc_object(p); }
#else
{
    if (p == NULL) return;
    if (sz > VP_STALE_MAX || sz % 8 != 0) { __CPROVER_havoc_object(p); return; }
    for (size_t i = 0; i < sz / 8; i++) ((uint64_t *) p)[i] = VP_STALE;
}
#endif
#endif
/* a scratch block of exactly n bytes */
#define vp_exact(n)         vp_mem_get((n) ? (n) : 1)
#define vp_exact_free(p, n) vp_mem_drop(p, n)

static void *vp_note(void *p, size_t size)
{
    ASSUME(vp_nblk < VP_BLOCKS);
    vp_blk[vp_nblk].p = p; vp_blk[vp_nblk].size = size;
    vp_nblk++; vp_live++;
    return p;
}
static void vp_forget(void *p, size_t size)
{
    bool found = false;
    for (unsigned i = vp_nblk; i > 0 && !found; i--)
        if (vp_blk[i - 1].p == p && p != NULL) {
            CHECK(vp_blk[i - 1].size == size, "a block is freed with the size it was allocated with");
            vp_blk[i - 1].p = NULL; found = true;
        }
#ifndef VP_STALE_ANY
    while (vp_nblk > 0 && vp_blk[vp_nblk - 1].p == NULL) vp_nblk--;
#endif
    CHECK(found, "only live blocks are freed");
    vp_live--;
}
static void *vp_raw(size_t size)
{
    if (vp_frozen) ASSUME(0);
    CHECK(size <= VP_ALLOC_LIMIT, "no absurd allocation");
    return vp_mem_get(size == 0 ? 1 : size);
}
static void *vp_a_malloc(const struct cork_alloc *a, size_t size)
{
    (void) a;
    return vp_note(vp_raw(size), size);
}
static void *vp_a_calloc(const struct cork_alloc *a, size_t n, size_t size)
{
    (void) a;
    CHECK(size == 0 || n <= VP_ALLOC_LIMIT / size, "no absurd allocation");
#if defined(VP_REPLAY) || !defined(VP_LIGHT)
    void *p = vp_raw(n * size);
    for (size_t i = 0; i < n * size; i++) ((char *) p)[i] = 0;
#else
    if (vp_frozen) ASSUME(0);
    CHECK(n * size <= VP_ALLOC_LIMIT, "no absurd allocation");
    void *p = __CPROVER_allocate(n * size == 0 ? 1 : n * size, 1);
#endif
    return vp_note(p, n * size);
}
static void *vp_a_realloc(const struct cork_alloc *a, void *ptr, size_t old, size_t size)
{
    (void) a;
    char *p = vp_raw(size);
    if (ptr != NULL) {
        size_t m = old < size ? old : size;
        vp_forget(ptr, old);
#ifdef VP_WORDCOPY
        for (size_t i = 0; i < m / sizeof(void *); i++) ((void **) p)[i] = ((void **) ptr)[i];
        for (size_t i = m - m % sizeof(void *); i < m; i++) p[i] = ((char *) ptr)[i];
#else
        for (size_t i = 0; i < m; i++) p[i] = ((char *) ptr)[i];
#endif
        vp_mem_drop(ptr, old);
    } else {
        CHECK(old == 0, "realloc of no block passes old size 0");
    }
    return vp_note(p, size);
}
static void vp_a_free(const struct cork_alloc *a, void *ptr, size_t size)
{
    (void) a;
    if (ptr == NULL) return;
    vp_forget(ptr, size);
    vp_mem_drop(ptr, size);
}
static const struct cork_alloc vp_allocator = {
    NULL, NULL, NULL, vp_a_calloc, vp_a_malloc, vp_a_realloc,
    vp_a_calloc, vp_a_malloc, vp_a_realloc, vp_a_free
};
#ifdef VP_REPLAY
/* replays link the real error.c, whose message buffers stay for good: let them
 * grow before the accounting starts */
void cork_error_set_printf(uint32_t, const char *, ...); void cork_error_prefix_printf(const char *, ...); void cork_error_clear(void);
static void vp_warm_errors(void)
{ cork_error_set_printf(1, "%1000d", 1); cork_error_prefix_printf("%1000d", 1); cork_error_prefix_printf("%1000d", 1); cork_error_clear(); }
#else
static void vp_warm_errors(void) { }
#endif
static void __attribute__((unused)) vp_alloc_install(void)
{ vp_warm_errors(); cork_allocator = &vp_allocator; vp_nblk = vp_live = 0; vp_frozen = false; }
#define VP_NO_LEAK() CHECK(vp_live == 0, "every block is released")
#endif
