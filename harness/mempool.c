/* C23 memory pools. */
#include "vp_alloc.h"
#include "libcork/core/mempool.h"
#ifndef SEQS
#define SEQS 0
#endif
#define MAXO 8
static const uint32_t seqs[] = { SEQS };
static size_t es;
/* objects handed out: where, what was written, in use or returned (in order of return) */
static struct { uint8_t *p; uint8_t data[24]; } live[MAXO], gone[MAXO]; static unsigned nlive, ngone;
static uint8_t *inited[32], *doned[32]; static unsigned ninit, ndone, nud, nud2; static char ud, ud2; static bool freeing;
static void init_object(void *u, void *o)
{
    CHECK(u == &ud, "init gets the user data"); CHECK(ninit < 32, "only objects of the blocks are initialised");
    for (size_t i = 0; i < es; i++) ((uint8_t *) o)[i] = 0x5a;
    inited[ninit++] = o;
}
static void done_object(void *u, void *o)
{
    CHECK(u == &ud && freeing && ndone < 32 && nud == 0, "done runs when the pool is freed, with the user data");
    doned[ndone++] = o;
}
static void free_ud(void *u) { CHECK(u == &ud && freeing, "user data is released with the pool"); nud++; }
static void free_ud2(void *u) { CHECK(u == &ud2, "replaced user data is released"); nud2++; }

static void pool(size_t esize, size_t bsize, unsigned callbacks, uint32_t seq, unsigned steps)
{
    vp_alloc_install(); es = esize; nlive = ngone = ninit = ndone = nud = nud2 = 0; freeing = false;
    struct cork_mempool *mp = bsize == 0 ? cork_mempool_new_size(esize) : cork_mempool_new_size_ex(esize, bsize);
    if (callbacks & 1) {
        if (callbacks & 2) cork_mempool_set_user_data(mp, &ud2, free_ud2);
        if (callbacks & 4) cork_mempool_set_callbacks(mp, &ud, free_ud, init_object, done_object);
        else { cork_mempool_set_user_data(mp, &ud, free_ud); cork_mempool_set_init_object(mp, init_object); cork_mempool_set_done_object(mp, done_object); }
        CHECK(nud2 == (callbacks & 2 ? 1 : 0), "replaced user data is released");
    }
    CHECK(vp_live == 1, "no objects before they are needed");
    for (unsigned s = 0; s < steps; s++, seq >>= 3) {
        unsigned o = seq & 7;
        if (o == 0) {
            unsigned blocks = vp_live;
            uint8_t *p = cork_mempool_new_object(mp);
            CHECK(p != NULL && (uintptr_t) p % sizeof(void *) == 0, "an aligned object");
            CHECK(vp_live == blocks || ngone == 0, "returned objects are reused before new memory is taken");
            bool again = false;
            for (unsigned g = 0; g < ngone; g++) if (gone[g].p == p) {
                CHECK(!again, "an object is returned once"); again = true;
                for (size_t i = 0; i < es; i++) CHECK(p[i] == gone[g].data[i], "a reused object is as it was left");
                for (unsigned h = g; h + 1 < ngone; h++) gone[h] = gone[h + 1];
                ngone--;
                break;
            }
            for (unsigned l = 0; l < nlive; l++) CHECK(p != live[l].p, "objects in use are distinct");
            if (!again && callbacks & 1) {
                bool in = false; for (unsigned i = 0; i < ninit; i++) if (inited[i] == p) in = true;
                CHECK(in, "objects are initialised");
                for (size_t i = 0; i < es; i++) CHECK(p[i] == 0x5a, "a new object is as initialised");
            }
            live[nlive].p = p;
            for (size_t i = 0; i < es; i++) p[i] = live[nlive].data[i] = in_u8();
            nlive++;
        } else {
            unsigned k = o - 1;
            for (size_t i = 0; i < es; i++) CHECK(live[k].p[i] == live[k].data[i], "contents are kept");
            cork_mempool_free_object(mp, live[k].p);
            gone[ngone++] = live[k];
            for (unsigned l = k; l + 1 < nlive; l++) live[l] = live[l + 1];
            nlive--;
        }
        for (unsigned l = 0; l < nlive; l++) for (size_t i = 0; i < es; i++) CHECK(live[l].p[i] == live[l].data[i], "contents are kept");
    }
    while (nlive > 0) { nlive--; cork_mempool_free_object(mp, live[nlive].p); }
    freeing = true;
    cork_mempool_free(mp);
    if (callbacks & 1) {
        CHECK(ndone == ninit, "every initialised object is finalised");
        for (unsigned i = 0; i < ninit; i++) {
            unsigned n = 0;
            for (unsigned k = 0; k < ndone; k++) if (doned[k] == inited[i]) n++;
            CHECK(n == 1, "once");
            for (unsigned k = 0; k < i; k++) CHECK(inited[k] != inited[i], "an object is initialised once");
        }
        CHECK(nud == 1, "user data is released once");
    }
    VP_NO_LEAK();
    WITNESS("case");
}
void h_mempool(void)
{
    static const uint8_t esz[] = { 8, 1, 12, 16, 24, 3 };
    unsigned z = 0;
    CASES();
    for (unsigned s = 0; s < sizeof seqs / sizeof *seqs; s++)
        for (unsigned e = 0; e < ESIZES; e++) {
            /* one object per block, less, two, three and a bit */
            size_t one = esz[e] + 8, up = (one + 7) / 8 * 8, bs[4] = { 8 + up, 8 + 2 * up, 10, 4 * up };
            unsigned t = z++;
            CASE() { pool(esz[e], bs[t % 4], t / 3 % 8, seqs[s], STEPS); return; }
        }
    CASES_END();
}
/* objects of every size fit, default block size */
void h_mempool_large(void)
{
    static const uint16_t size[] = { 40, 46, 56, 57, 64, 72, 100 };
    CASES();
    for (unsigned i = 0; i < 7; i++)
        CASE() {
            vp_alloc_install();
            struct cork_mempool *mp = i & 1 ? cork_mempool_new_size_ex(size[i], 16) : cork_mempool_new_size_ex(size[i], 64);
            uint8_t *p = cork_mempool_new_object(mp), *q = cork_mempool_new_object(mp);
            CHECK(p != NULL && q != NULL && p != q, "objects of any size");
            size_t at = in_range(0, size[i] - 1); uint8_t v = in_u8();
            q[at] = v + 1; p[at] = v; p[0] = p[0]; p[size[i] - 1] = p[size[i] - 1];
            CHECK(p[at] == v && q[at] == (uint8_t) (v + 1), "distinct objects");
            cork_mempool_free_object(mp, p); cork_mempool_free_object(mp, q);
            cork_mempool_free(mp);
            VP_NO_LEAK();
            WITNESS("case");
            return;
        }
    CASES_END();
}
