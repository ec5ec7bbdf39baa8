/* C24 reference-counted garbage collection. */
#include "vp_alloc.h"
#include "libcork/core/gc.h"
#ifndef NOBJ
#define NOBJ 3
#endif
#ifndef STEPS
#define STEPS 1
#endif
struct node { struct node *kid[2]; uint32_t tag; };
static struct node *o[NOBJ]; static uint32_t tag[NOBJ];
static unsigned ext[NOBJ]; static int edge[NOBJ][2]; static bool reach[NOBJ], gone[NOBJ], leaf[NOBJ], quiet[NOBJ];

static void released(void *obj)
{
    struct node *n = obj; bool mine = false;
    for (unsigned i = 0; i < NOBJ; i++)
        if (o[i] == n) {
            mine = true;
            CHECK(!gone[i], "an object is released once");
            CHECK(!reach[i], "an object that is still referenced is not released");
            CHECK(!quiet[i], "the right callbacks are used");
            CHECK(n->tag == tag[i], "the contents are intact when an object is released");
            gone[i] = true;
        }
    CHECK(mine, "only objects of the collector are released");
}
static void recurse(struct cork_gc *gc, void *obj, cork_gc_recurser step, void *ud)
{ struct node *n = obj; step(gc, n->kid[0], ud); step(gc, n->kid[1], ud); }
static struct cork_gc_obj_iface if_full = { released, recurse }, if_quiet = { NULL, recurse }, if_leaf = { released, NULL }, if_none = { NULL, NULL };

static void mark(unsigned i)
{
    if (reach[i]) return;
    reach[i] = true;
    for (unsigned k = 0; k < 2; k++) if (edge[i][k] >= 0) mark(edge[i][k]);
}
static void settle(void)
{
    for (unsigned i = 0; i < NOBJ; i++) reach[i] = false;
    for (unsigned i = 0; i < NOBJ; i++) if (ext[i] > 0) mark(i);
}
static void intact(void)
{ for (unsigned i = 0; i < NOBJ; i++) if (reach[i]) CHECK(!gone[i] && o[i]->tag == tag[i], "a referenced object is intact"); }
static void collect(void)
{
    cork_gc_done();
    for (unsigned i = 0; i < NOBJ; i++) if (!quiet[i]) CHECK(gone[i] == !reach[i], "finishing releases exactly the unreachable objects");
    unsigned n = 0; for (unsigned i = 0; i < NOBJ; i++) if (reach[i]) n++;
    CHECK(vp_live == n, "finishing frees exactly the unreachable objects");
    intact();
}
static void make(unsigned graph, unsigned kinds)
{
    vp_alloc_install(); cork_gc_init();
    for (unsigned i = 0; i < NOBJ; i++) {
        ext[i] = 1; gone[i] = false; quiet[i] = kinds >> i & 1; edge[i][0] = edge[i][1] = -1; tag[i] = in_u32();
        leaf[i] = graph % 100 == 0 && kinds & 8;
        for (unsigned k = 0; k < 2; k++, graph /= 10) edge[i][k] = (int) (graph % 10) - 1;
        o[i] = cork_gc_new_iface(struct node, leaf[i] ? (quiet[i] ? &if_none : &if_leaf) : quiet[i] ? &if_quiet : &if_full);
        o[i]->tag = tag[i];
    }
    for (unsigned i = 0; i < NOBJ; i++)
        for (unsigned k = 0; k < 2; k++) o[i]->kid[k] = edge[i][k] >= 0 ? cork_gc_incref(o[edge[i][k]]) : NULL;
    settle();
    CHECK(cork_gc_incref(NULL) == NULL, "no object");
    cork_gc_decref(NULL);
}
static void drop(unsigned i) { ext[i]--; settle(); cork_gc_decref(o[i]); intact(); }

/* digits of a script: 1..3 drop a reference, 4..6 take one, 7 collect,
 * 8: the first edge of the first reachable object goes to the last reachable object, 9: ... is cut */
static void script(unsigned graph, unsigned kinds, unsigned ops)
{
    make(graph, kinds);
    for (; ops > 0; ops /= 10) {
        unsigned p = ops % 10;
        if (p >= 1 && p <= 3) { if (p <= NOBJ && ext[p - 1] > 0) drop(p - 1); }
        else if (p >= 4 && p <= 6) {
            if (p - 4 < NOBJ && reach[p - 4]) { ext[p - 4]++; CHECK(cork_gc_incref(o[p - 4]) == o[p - 4], "the object itself"); }
        } else if (p == 7) collect();
        else {
            int a = -1, b = -1;
            for (int i = 0; i < NOBJ; i++) if (reach[i]) { if (a < 0) a = i; b = i; }
            if (a >= 0 && !leaf[a]) {
                struct node *old = o[a]->kid[0];
                o[a]->kid[0] = p == 8 ? cork_gc_incref(o[b]) : NULL;
                edge[a][0] = p == 8 ? b : -1;
                settle(); cork_gc_decref(old); intact();
            }
        }
    }
    for (unsigned i = 0; i < NOBJ; i++) while (ext[i] > 0) drop(i);
    collect();
    VP_NO_LEAK();
    WITNESS("case");
}
#ifdef GRAPHS
static const uint32_t graphs[] = { GRAPHS }; static const uint32_t scripts[] = { SCRIPTS };
void h_gc(void)
{
    unsigned z = 0;
    CASES();
    for (unsigned g = 0; g < sizeof graphs / sizeof *graphs; g++)
        for (unsigned s = 0; s < sizeof scripts / sizeof *scripts; s++) {
            unsigned kinds = z++ % 16;
            CASE() { script(graphs[g], kinds, scripts[s]); return; }
        }
    CASES_END();
}
#endif
