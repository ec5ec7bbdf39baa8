/* C13 doubly linked lists: two lists, K items, every sequence of STEPS
 * operations, against two reference sequences. */
#include "vp.h"
#include "libcork/core/types.h"
#include "libcork/ds/dllist.h"
/* the linkable form of cork_dllist_init, which the header hides */
void linkable_init(struct cork_dllist *list) __asm__("cork_dllist_init");
#ifndef VP_REPLAY
#undef cork_dllist_init
void cork_dllist_init(struct cork_dllist *list);
void linkable_init(struct cork_dllist *list) { cork_dllist_init(list); }
#define cork_dllist_init(list) do { (list)->head.next = &(list)->head; (list)->head.prev = &(list)->head; } while (0)
#endif
#ifndef VK
#define VK 3
#define K 4
#endif
struct elem { int pad; struct cork_dllist_item item; int idx; };
static struct cork_dllist L[2];
static struct elem E[K];
static int m[2][K]; static int n[2]; static int where[K];

static int pos(int l, int e) { int p = -1; for (int i = 0; i < K; i++) if (i < n[l] && m[l][i] == e) p = i; return p; }
static void ins(int l, int p, int e)
{
    for (int i = K - 1; i > 0; i--) if (i > p) m[l][i] = m[l][i-1];
    m[l][p] = e; n[l]++; where[e] = l;
}
static void del(int e)
{
    int l = where[e], p = pos(l, e);
    for (int i = 0; i < K - 1; i++) if (i >= p) m[l][i] = m[l][i+1];
    n[l]--; where[e] = -1;
}
static int visited; static int vlist; static int vstop, vrem;
static int visit(void *ud, struct cork_dllist_item *it)
{
    struct elem *e = cork_container_of(it, struct elem, item);
    CHECK(ud == &visited, "visitor gets its user data");
    CHECK(visited < n[vlist] && e->idx == m[vlist][visited], "visited in order");
    int k = visited++;
    if (vrem & (1 << k)) cork_dllist_remove(it);
    return k == vstop ? 7 : 0;
}
static void check_list(int l)
{
    struct cork_dllist_item *c, *nx; struct elem *e; int k = 0;
    for (c = cork_dllist_start(&L[l]); !cork_dllist_is_end(&L[l], c); c = c->next, k++) {
        CHECK(k < n[l], "no extra element");
        CHECK(c == &E[m[l][k]].item, "forward order");
    }
    CHECK(k == n[l], "all elements reached forwards");
    for (c = cork_dllist_end(&L[l]); !cork_dllist_is_start(&L[l], c); c = c->prev) {
        CHECK(k > 0, "no extra element backwards");
        k--;
        CHECK(c == &E[m[l][k]].item, "backward order");
    }
    CHECK(k == 0, "all elements reached backwards");
    cork_dllist_foreach(&L[l], c, nx, struct elem, e, item) {
        CHECK(k < n[l] && e == &E[m[l][k]], "foreach order"); k++;
    }
    CHECK(k == n[l], "foreach reaches all");
    CHECK(cork_dllist_size(&L[l]) == (size_t) n[l], "size");
    CHECK(cork_dllist_is_empty(&L[l]) == (n[l] == 0), "emptiness");
    CHECK(cork_dllist_head(&L[l]) == (n[l] ? &E[m[l][0]].item : NULL), "head");
    CHECK(cork_dllist_tail(&L[l]) == (n[l] ? &E[m[l][n[l]-1]].item : NULL), "tail");
}
static void step(int op, int l, int e, int q)
{
    switch (op) {
    case 0: cork_dllist_add_to_head(&L[l], &E[e].item); ins(l, 0, e); break;
    case 1: cork_dllist_add_to_tail(&L[l], &E[e].item); ins(l, n[l], e); break;
    case 2: if (q >= n[l]) return; q = m[l][q]; cork_dllist_add_after(&E[q].item, &E[e].item); ins(l, pos(l, q) + 1, e); break;
    case 3: if (q >= n[l]) return; q = m[l][q]; cork_dllist_add_before(&E[q].item, &E[e].item); ins(l, pos(l, q), e); break;
    case 4: if (q >= n[l]) return; q = m[l][q]; cork_dllist_remove(&E[q].item); del(q); break;
    case 5: cork_dllist_add_list_to_head(&L[l], &L[1-l]);
        for (int i = K - 1; i >= 0; i--) if (i < n[1-l]) ins(l, 0, m[1-l][i]);
        n[1-l] = 0; break;
    case 6: cork_dllist_add_list_to_tail(&L[l], &L[1-l]);
        for (int i = 0; i < K; i++) if (i < n[1-l]) ins(l, n[l], m[1-l][i]);
        n[1-l] = 0; break;
    }
}
static void start(void)
{
    struct cork_dllist st = CORK_DLLIST_INIT(st);
    CHECK(cork_dllist_is_empty(&st), "static initialiser is empty");
    cork_dllist_init(&L[0]);
    linkable_init(&L[1]);
    n[0] = n[1] = 0;
    for (int i = 0; i < K; i++) { where[i] = -1; E[i].idx = i; }
}
static void fill(int a, int b)
{
    start();
    for (int i = 0; i < a; i++) { cork_dllist_add(&L[0], &E[i].item); m[0][n[0]++] = i; where[i] = 0; }
    for (int i = a; i < a + b; i++) { cork_dllist_add(&L[1], &E[i].item); m[1][n[1]++] = i; where[i] = 1; }
}
/* From every pair of well-formed lists (items are interchangeable, so a state
 * is a pair of lengths) every operation at every position gives well-formed
 * lists again: the inductive step of "any sequence of operations".  The solver
 * picks the case; each case runs on concrete pointers. */
void h_dllist_ops(void)
{
    unsigned sel = in_uint(), k = 0;
    for (int a = 0; a < K; a++) for (int b = 0; a + b < K; b++)
        for (int op = 0; op < 7; op++) for (int l = 0; l < 2; l++)
            for (int q = 0; q < ((op >= 2 && op <= 4) ? (l ? b : a) : 1); q++)
                if (sel == k++) {
                    fill(a, b);
                    check_list(0); check_list(1);
                    step(op, l, a + b, q);
                    check_list(0); check_list(1);
                    /* a removed item can be used again */
                    if (op == 4) { cork_dllist_add_to_head(&L[l], &E[l ? a + q : q].item); ins(l, 0, l ? a + q : q); check_list(0); check_list(1); }
                    WITNESS("case");
                    return;
                }
    ASSUME(sel < k);
}
static void mapper(struct cork_dllist_item *it, void *ud) { visit(ud, it); }
static void visit_case(int len, bool map, int stop, int rem)
{
    fill(len, 0);
    vlist = 0; visited = 0; vstop = stop; vrem = rem;
    int rc = 0;
    if (map) cork_dllist_map(&L[0], mapper, &visited);
    else rc = cork_dllist_visit(&L[0], &visited, visit);
    if (map || stop >= len) CHECK(rc == 0 && visited == len, "a completed visit reaches all and returns 0");
    else CHECK(rc == 7 && visited == stop + 1, "a visit stops at and returns the first non-zero result");
    int k = 0;
    for (int i = 0; i < len; i++) if (i >= visited || !(rem & (1 << i))) m[0][k++] = m[0][i];
    n[0] = k;
    check_list(0); check_list(1);
    struct cork_dllist_item *c, *nx;
    cork_dllist_foreach_void(&L[0], c, nx) { cork_dllist_remove(c); }
    n[0] = 0;
    check_list(0);
    WITNESS("case");
}
void h_dllist_visit(void)
{
    unsigned sel = in_uint(), k = 0;
    for (int len = 0; len <= VK; len++) for (int map = 0; map < 2; map++)
        for (int stop = 0; stop <= (map ? 0 : len); stop++) for (int rem = 0; rem < (1 << len); rem++)
            if (sel == k++) { visit_case(len, map, stop, rem); return; }
    ASSUME(sel < k);
}
