/* C15 array element callbacks: every slot's life is followed by a token that
 * init writes into the slot and that moves with it. */
#include "vp_alloc.h"
#include <assert.h>
#include "libcork/ds/array.h"
#ifndef MAXPRE
#define MAXPRE 2
#define NOPS 2
#endif
#define MAXT (MAXPRE + 6)
struct el { uint32_t token; uint32_t val; };
typedef cork_array(struct el) el_array;
enum { IDLE = 1, USED = 2, DONE = 3 };
/* one record per array: which tokens exist and what became of them */
struct rec { uint8_t st[MAXT]; unsigned nt; unsigned removed, reused, inits, dones; bool freed; };
static struct rec RA, RB;

static unsigned mask;           /* 1 done, 2 reuse, 4 remove */
static void on_init(void *ud, void *v)
{
    struct rec *r = ud; struct el *e = v;
    CHECK(r == &RA || r == &RB, "callbacks get the user data");
    CHECK(r->nt < MAXT, "tokens suffice");
    e->token = r->nt; e->val = 0; r->st[r->nt++] = USED; r->inits++;
}
static struct el *tok(struct rec *r, void *v)
{
    struct el *e = v;
    CHECK(r == &RA || r == &RB, "callbacks get the user data");
    CHECK(e->token < r->nt, "callbacks get an initialised slot");
    CHECK(r->st[e->token] != DONE, "no callback after done");
    return e;
}
static void on_done(void *ud, void *v) { struct rec *r = ud; struct el *e = tok(r, v); r->st[e->token] = DONE; r->dones++; }
static void on_reuse(void *ud, void *v)
{ struct rec *r = ud; struct el *e = tok(r, v); CHECK(r->st[e->token] == IDLE || !(mask & 4), "reuse only of a slot whose element was removed"); r->st[e->token] = USED; r->reused++; }
static void on_remove(void *ud, void *v)
{ struct rec *r = ud; struct el *e = tok(r, v); CHECK(r->st[e->token] == USED || !(mask & 2), "remove once per element, when it leaves"); r->st[e->token] = IDLE; r->removed++; }
static void on_free(void *ud) { struct rec *r = ud; CHECK(!r->freed, "user data freed once"); r->freed = true; }

static el_array A; static uint32_t MV[MAXT]; static size_t n;

static void setup(el_array *a, struct rec *r)
{
    cork_array_init(a);
    cork_array_set_callback_data(a, r, on_free);
    cork_array_set_init(a, on_init);
    if (mask & 1) cork_array_set_done(a, on_done);
    if (mask & 2) cork_array_set_reuse(a, on_reuse);
    if (mask & 4) cork_array_set_remove(a, on_remove);
    r->nt = r->removed = r->reused = r->inits = r->dones = 0; r->freed = false;
    for (int i = 0; i < MAXT; i++) r->st[i] = 0;
}
/* where a callback is not installed the model takes its step */
static void settle(el_array *a, struct rec *r)
{
    bool used[MAXT];
    if (mask == 0) return;      /* nobody can tell slots apart */
    for (unsigned i = 0; i < MAXT; i++) used[i] = false;
    for (size_t i = 0; i < cork_array_size(a); i++) {
        struct el *e = &cork_array_at(a, i);
        CHECK(e->token < r->nt, "every element lives in an initialised slot");
        CHECK(!used[e->token], "no two elements share a slot's identity");
        used[e->token] = true;
    }
    for (unsigned i = 0; i < r->nt; i++) {
        if (!(mask & 2) && r->st[i] == IDLE && used[i]) r->st[i] = USED;
        if (!(mask & 4) && r->st[i] == USED && !used[i]) r->st[i] = IDLE;
        CHECK(r->st[i] != DONE, "no slot is finalised before the array");
        CHECK((r->st[i] == USED) == used[i], "exactly the elements in the array are in use");
    }
}
static void add(el_array *a, struct rec *r, uint32_t v)
{
    unsigned before = r->inits + r->reused;
    struct el *e = cork_array_append_get(a);
    e->val = v;
    if (mask & 2) CHECK(r->inits + r->reused == before + 1, "init or reuse, once");
}
static void same(void)
{
    CHECK(cork_array_size(&A) == n, "size");
    for (size_t i = 0; i < n; i++) CHECK(cork_array_at(&A, i).val == MV[i], "elements in order");
    settle(&A, &RA);
}
static int copy_fail;
static int copy_el(void *ud, void *d, const void *s)
{
    (void) ud;
    if (copy_fail-- == 0) return -1;
    ((struct el *) d)->val = ((const struct el *) s)->val;
    return 0;
}
/* op numbering: 0 append, 1 clear, 2.. removals of (i,c), then copies */
static bool op(unsigned o)
{
    if (o == 0) { uint32_t v = in_u32(); add(&A, &RA, v); MV[n++] = v; same(); return true; }
    if (o == 1) { cork_array_clear(&A); n = 0; same(); return true; }
    o -= 2;
    for (size_t i = 0; i <= MAXPRE + 1; i++) for (size_t c = 0; i + c <= MAXPRE + 1; c++)
        if (o-- == 0) {
            if (i + c > n) return false;
            unsigned was = RA.removed;
            if (c == 1) cork_array_remove(&A, i); else cork_array_remove_range(&A, i, c);
            for (size_t k = i; k + c < n; k++) MV[k] = MV[k + c];
            n -= c;
            if (mask & 4) CHECK(RA.removed == was + c, "remove called for exactly the removed elements");
            same();
            return true;
        }
    /* copy from an array of src elements, failing at element f (f == src: not) */
    for (size_t src = 0; src <= 2; src++) for (size_t f = 0; f <= src; f++)
        if (o-- == 0) {
            el_array B;
            setup(&B, &RB);
            for (size_t k = 0; k < src; k++) add(&B, &RB, 100 + k);
            copy_fail = f < src ? (int) f : -1;
            int rc = cork_array_copy(&A, &B, copy_el, NULL);
            CHECK((rc != 0) == (f < src), "a failing copy is reported");
            if (rc == 0) { n = src; for (size_t k = 0; k < n; k++) MV[k] = 100 + k; same(); }
            else { n = cork_array_size(&A); for (size_t k = 0; k < n; k++) MV[k] = cork_array_at(&A, k).val; same(); }
            CHECK(cork_array_size(&B) == src, "the source is left alone");
            for (size_t k = 0; k < src; k++) CHECK(cork_array_at(&B, k).val == 100 + k, "the source is left alone");
            settle(&B, &RB);
            cork_array_done(&B);
            return true;
        }
    return false;
}
#define OPCOUNT (2 + (MAXPRE + 2) * (MAXPRE + 3) / 2 + 6)
static void run(unsigned msk, unsigned pre, unsigned o1, unsigned o2)
{
    vp_alloc_install();
    mask = msk; n = 0;
    setup(&A, &RA);
    for (unsigned i = 0; i < pre; i++) { uint32_t v = in_u32(); add(&A, &RA, v); MV[n++] = v; }
    same();
    if (!op(o1)) return;
    if (NOPS > 1 && !op(o2)) return;
    add(&A, &RA, 7); MV[n++] = 7; same();
    cork_array_done(&A);
    if (mask & 1) for (unsigned i = 0; i < RA.nt; i++) CHECK(RA.st[i] == DONE, "every initialised slot is finalised once");
    CHECK(!(mask & 1) || RA.dones == RA.inits, "done once per init");
    CHECK(RA.freed, "user data released");
    VP_NO_LEAK();
    WITNESS("case");
}
/* could the operations apply at all?  (keeps impossible cases out) */
static size_t after(unsigned o, size_t k)
{
    if (o == 0) return k + 1;
    if (o == 1) return 0;
    o -= 2;
    for (size_t i = 0; i <= MAXPRE + 1; i++) for (size_t c = 0; i + c <= MAXPRE + 1; c++)
        if (o-- == 0) return i + c > k ? (size_t) -1 : k - c;
    for (size_t src = 0; src <= 2; src++) for (size_t f = 0; f <= src; f++)
        if (o-- == 0) return f < src ? 0 : src;
    return 0;
}
void h_array_life(void)
{
    static const uint8_t masks[] = { 7, 3, 5, 1, 6, 0, 2, 4 };
    CASES();
    for (unsigned m = 0; m < (NOPS > 1 ? 2 : 8); m++) for (unsigned p = 0; p <= MAXPRE; p++)
        for (unsigned a = 0; a < OPCOUNT; a++) {
            size_t k = after(a, p);
            if (k == (size_t) -1) continue;
            for (unsigned b = 0; b < (NOPS > 1 ? OPCOUNT : 1); b++) {
                if (NOPS > 1 && after(b, k) == (size_t) -1) continue;
                CASE() { run(masks[m], p, a, b); return; }
            }
        }
    CASES_END();
}

/* pointer and string arrays: everything released exactly once */
static unsigned freed[12]; static int objs[12];
static void free_obj(void *p)
{
    unsigned i = (int *) p - objs;
    CHECK(i < 12, "only elements are released");
    freed[i]++;
}
static void ptr_case(unsigned pre, unsigned i, unsigned c, bool clr)
{
    cork_array(int *) a;
    vp_alloc_install();
    for (int k = 0; k < 12; k++) freed[k] = 0;
    cork_pointer_array_init(&a, free_obj);
    for (unsigned k = 0; k < pre; k++) cork_array_append(&a, &objs[k]);
    if (clr) cork_array_clear(&a); else cork_array_remove_range(&a, i, c);
    for (unsigned k = 0; k < pre; k++)
        CHECK(freed[k] == ((clr || (k >= i && k < i + c)) ? 1 : 0), "exactly the removed pointers are released");
    cork_array_append(&a, &objs[10]);
    cork_array_append(&a, &objs[11]);
    size_t o = 0;
    for (unsigned k = 0; k < pre; k++) if (freed[k] == 0) CHECK(cork_array_at(&a, o++) == &objs[k], "the others stay, in order");
    CHECK(cork_array_size(&a) == o + 2 && cork_array_at(&a, o) == &objs[10], "appended after them");
    cork_array_done(&a);
    for (unsigned k = 0; k < 12; k++) CHECK(freed[k] == ((k < pre || k > 9) ? 1 : 0), "every pointer is released exactly once");
    VP_NO_LEAK();
    WITNESS("case");
}
void h_pointer_array(void)
{
    CASES();
    for (unsigned p = 0; p <= 4; p++) for (unsigned i = 0; i <= p; i++) for (unsigned c = 0; i + c <= p; c++)
        for (int clr = 0; clr < (i + c == 0 ? 2 : 1); clr++)
            CASE() { ptr_case(p, i, c, clr); return; }
    CASES_END();
}
static void str_fill(struct cork_string_array *a, unsigned k, char base)
{
    char s[4];
    for (unsigned i = 0; i < k; i++) { s[0] = base + i; s[1] = i & 1 ? '\0' : 'x'; s[2] = '\0'; cork_string_array_append(a, s); }
}
static void str_check(struct cork_string_array *a, unsigned at, unsigned k, char base)
{
    for (unsigned i = 0; i < k; i++) {
        const char *s = cork_array_at(a, at + i);
        CHECK(s[0] == base + (int) i && (i & 1 ? s[1] == '\0' : (s[1] == 'x' && s[2] == '\0')), "the strings are copies of the originals");
    }
}
static void str_case(unsigned na, unsigned nb, unsigned drop)
{
    struct cork_string_array a, b;
    vp_alloc_install();
    cork_string_array_init(&a); cork_string_array_init(&b);
    str_fill(&a, na, 'a'); str_fill(&b, nb, 'k');
    cork_array_remove_range(&b, 0, drop);
    cork_string_array_copy(&b, &a);
    CHECK(cork_array_size(&b) == na && cork_array_size(&a) == na, "copied");
    str_check(&b, 0, na, 'a'); str_check(&a, 0, na, 'a');
    for (unsigned i = 0; i < na; i++) CHECK(cork_array_at(&a, i) != cork_array_at(&b, i), "copies are separate strings");
    cork_array_clear(&a);
    cork_string_array_append(&a, "zz");
    str_fill(&b, 1, 'q');
    CHECK(cork_array_size(&b) == na + 1 && cork_array_size(&a) == 1, "sizes");
    str_check(&b, 0, na, 'a'); str_check(&b, na, 1, 'q');
    cork_array_done(&a); cork_array_done(&b);
    VP_NO_LEAK();
    WITNESS("case");
}
void h_string_array(void)
{
    CASES();
    for (unsigned na = 0; na <= 2; na++) for (unsigned nb = 0; nb <= 2; nb++) for (unsigned d = 0; d <= nb; d++)
        CASE() { str_case(na, nb, d); return; }
    CASES_END();
}
