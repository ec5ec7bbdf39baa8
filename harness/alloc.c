/* C25 allocators.  The C library's heap and a custom allocator are stand-ins
 * that note every block with its size and can be told to fail. */
#include "vp.h"
#include <stdarg.h>
#include <stdio.h>
#include "libcork/core/allocator.h"
#include "libcork/core/error.h"
#define NB 16
enum { STDLIB = 1, CUSTOM = 2 };
static struct { uint8_t *p; size_t size; int owner; } B[NB]; static unsigned nb, live;
static bool may_abort, failing;
static struct cork_alloc *A; static char ud, ud2;
static const struct cork_alloc *stdlib_alloc;
#ifdef VP_REPLAY
void *__real_malloc(size_t); void __real_free(void *);
static void *raw(size_t n) { return __real_malloc(n ? n : 1); }
#else
static void *raw(size_t n) { return __CPROVER_allocate(n ? n : 1, 0); }
#endif
#ifndef VP_REPLAY
#define exit_now() __CPROVER_assume(0)
#else
#define exit_now() do { printf("VP-DONE\n"); fflush(stdout); _Exit(0); } while (0)
#endif
void STUB(abort)(void)
{
    CHECK(may_abort, "the process is aborted only where documented");
    WITNESS("case");
    exit_now();
}
#ifndef VP_REPLAY
int fprintf(FILE *f, const char *fmt, ...) { return 0; }
#endif
static int find(void *p) { for (unsigned i = 0; i < nb; i++) if (B[i].p == p && p != NULL) return i; return -1; }
static void *get(size_t n, int owner)
{
    if (failing || n > 4096) return NULL;
    ASSUME(nb < NB);
    B[nb].p = raw(n); B[nb].size = n; B[nb].owner = owner; live++;
    return B[nb++].p;
}
static void drop(int i)
{
    /* what is gone is unknown */
    for (size_t k = 0; k < B[i].size; k++) B[i].p[k] = 0xDD;
    B[i].p = NULL; live--;
}
void *STUB(malloc)(size_t n) { return get(n, STDLIB); }
void *STUB(calloc)(size_t c, size_t n)
{
    if (n != 0 && c > 4096 / n) return NULL;
    uint8_t *p = get(c * n, STDLIB);
    if (p) for (size_t i = 0; i < c * n; i++) p[i] = 0;
    return p;
}
void STUB(free)(void *p)
{
    if (p == NULL) return;
    int i = find(p);
    CHECK(i >= 0 && B[i].owner == STDLIB, "only its own live blocks are freed");
    drop(i);
}
void *STUB(realloc)(void *p, size_t n)
{
    uint8_t *q = get(n, STDLIB);
    if (p == NULL || q == NULL) return q;
    int i = find(p);
    CHECK(i >= 0 && B[i].owner == STDLIB, "only its own live blocks are reallocated");
    for (size_t k = 0; k < n && k < B[i].size; k++) q[k] = B[i].p[k];
    drop(i);
    return q;
}
static void (*at_exit)(void); static unsigned n_at_exit;
int STUB(atexit)(void (*f)(void)) { at_exit = f; n_at_exit++; return 0; }

/* the custom allocator */
static unsigned used;       /* which of its operations ran */
static void own(const struct cork_alloc *a) { CHECK(a == A && a->user_data == &ud, "operations get their allocator"); }
static void *my_xmalloc(const struct cork_alloc *a, size_t n) { own(a); used |= 1; return get(n, CUSTOM); }
static void my_free(const struct cork_alloc *a, void *p, size_t n)
{
    own(a); used |= 2;
    int i = find(p);
    CHECK(i >= 0 && B[i].owner == CUSTOM, "only its own live blocks are freed");
    CHECK(B[i].size == n, "freed with the size allocated");
    drop(i);
}
static void *my_malloc(const struct cork_alloc *a, size_t n) { own(a); used |= 4; void *p = get(n, CUSTOM); if (p == NULL) STUB(abort)(); return p; }
static void *my_xcalloc(const struct cork_alloc *a, size_t c, size_t n) { own(a); used |= 8; if (n && c > 4096 / n) return NULL; uint8_t *p = get(c * n, CUSTOM); if (p) for (size_t i = 0; i < c * n; i++) p[i] = 0; return p; }
static void *my_calloc(const struct cork_alloc *a, size_t c, size_t n) { void *p = my_xcalloc(a, c, n); used ^= 8 | 16; if (p == NULL) STUB(abort)(); return p; }
static void *my_xrealloc(const struct cork_alloc *a, void *p, size_t o, size_t n)
{
    own(a); used |= 32;
    uint8_t *q = get(n, CUSTOM); if (p == NULL || q == NULL) return q;
    int i = find(p); CHECK(i >= 0 && B[i].owner == CUSTOM && B[i].size == o, "the old size is passed");
    for (size_t k = 0; k < n && k < o; k++) q[k] = B[i].p[k];
    drop(i); return q;
}
static void *my_realloc(const struct cork_alloc *a, void *p, size_t o, size_t n) { void *q = my_xrealloc(a, p, o, n); used ^= 32 | 64; if (q == NULL) STUB(abort)(); return q; }

static const struct cork_alloc *X; static unsigned kind; static size_t extra;
/* 0 C library, 1 custom with the two required operations, 2 custom with all,
 * 3, 4 the checking allocator on top of 0, 1 */
static void setup(unsigned k)
{
    may_abort = failing = false; nb = live = used = 0; kind = k; extra = k >= 3 ? sizeof(size_t) : 0;
    stdlib_alloc = X = cork_allocator;
    if (k == 1 || k == 2 || k == 4) {
        X = A = cork_alloc_new_alloc(cork_allocator);
        CHECK(A->parent == stdlib_alloc, "the parent is kept");
        cork_alloc_set_user_data(A, &ud, NULL);
        cork_alloc_set_xmalloc(A, my_xmalloc); cork_alloc_set_free(A, my_free);
    }
    if (k == 2) {
        cork_alloc_set_malloc(A, my_malloc); cork_alloc_set_calloc(A, my_calloc); cork_alloc_set_xcalloc(A, my_xcalloc);
        cork_alloc_set_realloc(A, my_realloc); cork_alloc_set_xrealloc(A, my_xrealloc);
    }
    if (k >= 3) X = cork_debug_alloc_new(X);
    cork_set_allocator(X);
    used = 0;
}
static int owner(void) { return kind == 0 || kind == 3 ? STDLIB : CUSTOM; }
/* p is a block of n bytes of the allocator */
static void is_block(void *p, size_t n)
{
    CHECK(p != NULL, "a block");
    int i = find((uint8_t *) p - extra);
    CHECK(i >= 0 && B[i].size == n + extra && B[i].owner == owner(), "of the size asked for");
    for (size_t k = 0; k < n; k++) ((uint8_t *) p)[k] = ((uint8_t *) p)[k];
}
/* 0 malloc 1 calloc 2 realloc, 3.. the x variants, 6 xreallocf; through the
 * current allocator or explicitly */
static void *call(unsigned op, bool explicitly, void *p, size_t o, size_t c, size_t n)
{
    if (explicitly) switch (op) {
        case 0: return cork_alloc_malloc(X, n);
        case 1: return cork_alloc_calloc(X, c, n);
        case 2: return cork_alloc_realloc(X, p, o, n);
        case 3: return cork_alloc_xmalloc(X, n);
        case 4: return cork_alloc_xcalloc(X, c, n);
        case 5: return cork_alloc_xrealloc(X, p, o, n);
        default: return cork_alloc_xreallocf(X, p, o, n);
    } else switch (op) {
        case 0: return cork_malloc(n);
        case 1: return cork_calloc(c, n);
        case 2: return cork_realloc(p, o, n);
        case 3: return cork_xmalloc(n);
        case 4: return cork_xcalloc(c, n);
        case 5: return cork_xrealloc(p, o, n);
        default: return cork_xreallocf(p, o, n);
    }
}
static void one(unsigned k, unsigned op, bool explicitly, size_t o, size_t c, size_t n, bool fail)
{
    uint8_t *p = NULL, *q, data[8]; bool re = op == 2 || op >= 5;
    setup(k);
    unsigned before = live;
    if (re && o > 0) { p = cork_xmalloc(o); is_block(p, o); for (size_t i = 0; i < o; i++) p[i] = data[i] = in_u8(); }
    failing = fail; may_abort = fail && op <= 2; used = 0;
    q = call(op, explicitly, p, o, c, n);
    CHECK(!may_abort && (q == NULL) == fail, "null exactly when there is no memory");
    if (k == 2) CHECK(used == (op == 6 ? (fail && p ? 34u : 32u) : op == 0 ? 4u : op == 1 ? 16u : op == 2 ? 64u : op == 3 ? 1u : op == 4 ? 8u : 32u), "an operation given is the one used");
    failing = false;
    if (fail) {
        if (p != NULL && op == 5) { is_block(p, o); for (size_t i = 0; i < o; i++) CHECK(p[i] == data[i], "a failed reallocation leaves the block alone"); cork_free(p, o); }
        CHECK(live == before, "and a freeing one releases it");
        WITNESS("case");
        return;
    }
    bool counted = op == 1 || op == 4;
    is_block(q, counted ? c * n : n);
    if (counted) for (size_t i = 0; i < c * n; i++) CHECK(q[i] == 0, "zeroed");
    if (re) for (size_t i = 0; i < o && i < n; i++) CHECK(q[i] == data[i], "contents are preserved");
    CHECK(live == before + 1, "nothing else stays allocated");
    if (counted) { if (explicitly) cork_alloc_cfree(X, q, c, n); else cork_cfree(q, c, n); }
    else if (explicitly) cork_alloc_free(X, q, n); else cork_free(q, n);
    CHECK(live == before, "freed");
    WITNESS("case");
}
void h_alloc_ops(void)
{
    static const uint8_t sz[] = { 1, 5, 8, 0 };
    unsigned z = 0;
    CASES();
    for (unsigned k = 0; k < 5; k++) for (unsigned op = 0; op < 7; op++) for (unsigned s = 0; s < 4; s++) {
        bool counted = op == 1 || op == 4, re = op == 2 || op >= 5;
        for (unsigned m = 0; m < (counted ? 3 : re ? 4 : 1); m++) {
            size_t c = m, o = m == 3 ? 8 : m * 3, n = sz[s]; unsigned t = z++;
            if (n == 0 && re) continue;
            CASE() { one(k, op, t & 1, o, c, n, false); return; }
            CASE() { one(k, op, ~t & 1, o, c, n ? n : 3, true); return; }
        }
    }
    CASES_END();
}
/* sizes that overflow */
void h_alloc_huge(void)
{
    CASES();
    for (unsigned k = 0; k < 5; k++) {
        for (unsigned x = 0; x < 2; x++) for (unsigned i = 0; i < 5; i++)
            CASE() {
                size_t c = i == 0 ? SIZE_MAX : i == 1 ? SIZE_MAX / 2 + 1 : i == 2 ? 2 : i == 3 ? (size_t) 1 << 32 : SIZE_MAX / 3 + 2;
                size_t n = i == 0 ? 2 : i == 1 ? 2 : i == 2 ? SIZE_MAX : i == 3 ? (size_t) 1 << 32 : 3;
                setup(k); may_abort = !x;
                void *p = x ? cork_xcalloc(c, n) : cork_calloc(c, n);
                CHECK(p == NULL && x, "no block is smaller than asked for");
                WITNESS("case");
                return;
            }
        for (unsigned op = 0; op < 7; op++) {
            if (op == 1 || op == 4) continue;
            CASE() {
                setup(k); may_abort = op < 3;
                size_t n = in_size(); ASSUME(n > 4096);
                void *p = call(op, false, NULL, 0, 1, n);
                CHECK(p == NULL && op >= 3, "no block is smaller than asked for");
                WITNESS("case");
                return;
            }
        }
    }
    CASES_END();
}
/* the checking allocator: any size but the right one aborts */
void h_alloc_debug(void)
{
    CASES();
    for (unsigned k = 3; k < 5; k++) for (unsigned n = 0; n < 5; n++) for (unsigned how = 0; how < 2; how++)
        CASE() {
            setup(k);
            unsigned before = live; size_t c = 1;
            void *p = how ? cork_calloc(n, 1) : cork_malloc(n); size_t s = in_size(); ASSUME(!how || s < SIZE_MAX);
            may_abort = s != n;
            if (how && s == 0) c = 0;
            if (how) cork_alloc_cfree(X, p, c, s == 0 ? 1 : s); else cork_free(p, s);
            CHECK(s == n && live == before, "exactly the right size is accepted");
            WITNESS("case");
            return;
        }
    CASES_END();
}
static void dup(unsigned k, unsigned op, size_t len, bool fail)
{
    char *src = raw(len + 1); const char *d;
    for (size_t i = 0; i < len; i++) { src[i] = in_u8(); if (!(op & 1)) ASSUME(src[i] != 0); }
    src[len] = op & 1 ? 'x' : 0;
    setup(k);
    unsigned before = live;
    failing = fail; may_abort = fail && !(op & 2);
    switch (op) {
    case 0: d = cork_strdup(src); break;
    case 1: d = cork_strndup(src, len); break;
    case 2: d = cork_xstrdup(src); break;
    case 3: d = cork_xstrndup(src, len); break;
    case 4: d = cork_alloc_strdup(X, src); break;
    case 5: d = cork_alloc_strndup(X, src, len); break;
    case 6: d = cork_alloc_xstrdup(X, src); break;
    default: d = cork_alloc_xstrndup(X, src, len); break;
    }
    CHECK(!may_abort && (d == NULL) == fail, "null exactly when there is no memory");
    if (!fail) {
        CHECK(d != src && live == before + 1, "a copy");
        for (size_t i = 0; i < len; i++) CHECK(d[i] == src[i], "of the same bytes");
        CHECK(d[len] == 0, "terminated");
        CHECK(cork_strlen(d) == len, "that knows its length");
        for (size_t i = 0; i <= len; i++) ((char *) d)[i] = 1;     /* all of it is ours */
        if (op & 4) cork_alloc_strfree(X, d); else cork_strfree(d);
    }
    CHECK(live == before, "released completely");
    WITNESS("case");
}
void h_alloc_strings(void)
{
    CASES();
    for (unsigned k = 0; k < 5; k++) for (unsigned op = 0; op < 8; op++) for (unsigned len = 0; len < 4; len++) {
        if (k == 2 && len) continue;
        CASE() { dup(k, op, len, false); return; }
        if (len < 2) CASE() { dup(k, op, len, true); return; }
    }
    CASES_END();
}
/* at exit allocators are released in reverse order, user data first */
static unsigned order[4], norder;
static void ud_free(void *u) { CHECK(norder < 4, "each user data once"); order[norder++] = *(unsigned *) u; }
void h_alloc_exit(void)
{
    static unsigned u[4] = { 10, 11, 12, 13 };
    CASES();
    for (unsigned shape = 0; shape < 8; shape++)
        CASE() {
            may_abort = failing = false; nb = live = norder = n_at_exit = 0;
            const struct cork_alloc *std = cork_allocator;
            A = cork_alloc_new_alloc(std);
            if (shape & 1) { cork_alloc_set_user_data(A, &u[3], ud_free); CHECK(norder == 0, "kept while in use"); }
            cork_alloc_set_user_data(A, &ud, NULL);
            CHECK(norder == (shape & 1), "replaced user data is released"); norder = 0;
            cork_alloc_set_xmalloc(A, my_xmalloc); cork_alloc_set_free(A, my_free);
            struct cork_alloc *b = shape & 2 ? cork_debug_alloc_new(A) : cork_alloc_new_alloc(A);
            cork_alloc_set_user_data(b, &u[1], ud_free);
            struct cork_alloc *c = shape & 2 ? cork_alloc_new_alloc(b) : cork_alloc_new_alloc(A);
            cork_alloc_set_user_data(c, &u[2], ud_free);
            CHECK(live == 3 && norder == 0 && n_at_exit == 1 && at_exit != NULL, "one exit handler");
            at_exit();
            CHECK(live == 0, "every allocator is released");
            CHECK(norder == 2 && order[0] == 12 && order[1] == 11, "in reverse order");
            WITNESS("case");
            return;
        }
    CASES_END();
}
