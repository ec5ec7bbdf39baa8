/* C21, C22 hash tables against an ordered list of entries. */
#include "vp_alloc.h"
#include "libcork/core/hash.h"
#include "libcork/ds/hash-table.h"
#ifndef PRE
#define PRE 2
#endif
#define NKEY 64
/* a key is a class and one of four representatives that are equal to each other */
#define KEY(c, r)  ((void *) (uintptr_t) (((c) + 1) * 4 + (r)))
#define CLASS(k)   ((unsigned) ((uintptr_t) (k) / 4) - 1)
static char ud; static unsigned pattern; static uint32_t hi;
static uint32_t hash_of(unsigned c)
{
    switch (pattern) {
    case 0: return 5;                           /* everything collides */
    case 1: return c * 0x9e3779b1u;             /* spread */
    case 2: return 3 + 8 * c;                   /* same bin until the table grows */
    default: return (c / 2) * 11;               /* pairs collide */
    }
}
static cork_hash my_hash(void *u, const void *k) { CHECK(u == &ud, "callbacks get the user data"); return hash_of(CLASS(k)); }
static bool my_equals(void *u, const void *a, const void *b) { CHECK(u == &ud, "callbacks get the user data"); return CLASS(a) == CLASS(b); }

/* the model */
static struct { unsigned c; void *key, *value; } M[NKEY]; static unsigned nM;
static int find(unsigned c) { for (unsigned i = 0; i < nM; i++) if (M[i].c == c) return i; return -1; }
static void drop(unsigned p) { for (unsigned i = p; i + 1 < nM; i++) M[i] = M[i + 1]; nM--; }
/* what the release callbacks saw */
static void *fk[NKEY], *fv[NKEY]; static unsigned nfk, nfv, nud;
static void *xk[NKEY], *xv[NKEY]; static unsigned nx;      /* what they should see */
static void free_key(void *k) { fk[nfk++] = k; }
static void free_value(void *v) { fv[nfv++] = v; }
static void free_ud(void *u) { CHECK(u == &ud, "the user data"); nud++; }
static void expect_free(unsigned p) { xk[nx] = M[p].key; xv[nx] = M[p].value; nx++; }
static void *fresh(void) { return (void *) (uintptr_t) in_u32(); }

static struct cork_hash_table *T; static bool owned;
static void start(unsigned pat, size_t size, bool callbacks)
{
    vp_alloc_install(); pattern = pat; nM = nfk = nfv = nx = nud = 0; owned = callbacks;
    T = cork_hash_table_new(size, 0);
    CHECK(cork_hash_table_size(T) == 0, "starts empty");
    cork_hash_table_set_hash(T, my_hash); cork_hash_table_set_equals(T, my_equals);
    cork_hash_table_set_user_data(T, &ud, callbacks ? free_ud : NULL);
    if (callbacks) { cork_hash_table_set_free_key(T, free_key); cork_hash_table_set_free_value(T, free_value); }
}
static void put(unsigned c, unsigned r, unsigned how)
{
    void *v = fresh(), *ok = &ud, *ov = &ud; bool is_new = false; int p = find(c);
    if (how == 0) cork_hash_table_put(T, KEY(c, r), v, &is_new, &ok, &ov);
    else if (how == 1) cork_hash_table_put_hash(T, hash_of(c), KEY(c, r), v, &is_new, &ok, &ov);
    else { cork_hash_table_put(T, KEY(c, r), v, NULL, NULL, NULL); is_new = p < 0; ok = p < 0 ? NULL : M[p].key; ov = p < 0 ? NULL : M[p].value; }
    CHECK(is_new == (p < 0), "put says whether the key is new");
    if (p < 0) { CHECK(ok == NULL && ov == NULL, "nothing replaced"); M[nM].c = c; M[nM].key = KEY(c, r); M[nM].value = v; nM++; }
    else { CHECK(ok == M[p].key && ov == M[p].value, "what was replaced is handed back"); M[p].key = KEY(c, r); M[p].value = v; }
}
static void get_or_create(unsigned c, unsigned r, unsigned how)
{
    bool is_new = false; int p = find(c);
    struct cork_hash_table_entry *e = how ? cork_hash_table_get_or_create_hash(T, hash_of(c), KEY(c, r), &is_new) : cork_hash_table_get_or_create(T, KEY(c, r), &is_new);
    CHECK(e != NULL && is_new == (p < 0) && e->hash == hash_of(c), "the entry of the key");
    if (p < 0) {
        CHECK(e->key == KEY(c, r) && e->value == NULL, "a new entry is empty");
        M[nM].c = c; M[nM].key = KEY(c, r); e->value = M[nM].value = fresh(); nM++;
    } else { CHECK(e->key == M[p].key && e->value == M[p].value, "an existing entry is returned as it is"); e->value = M[p].value = fresh(); }
}
static void del(unsigned c, unsigned r, unsigned how)
{
    void *ok = &ud, *ov = &ud; int p = find(c); bool rc;
    if (how == 0) rc = cork_hash_table_delete(T, KEY(c, r), &ok, &ov);
    else if (how == 1) rc = cork_hash_table_delete_hash(T, hash_of(c), KEY(c, r), &ok, &ov);
    else if (how == 2) { rc = cork_hash_table_delete(T, KEY(c, r), NULL, NULL); if (p >= 0) { ok = M[p].key; ov = M[p].value; } }
    else {
        struct cork_hash_table_entry *e = cork_hash_table_get_entry(T, KEY(c, r));
        CHECK((e != NULL) == (p >= 0), "an entry exactly for present keys");
        rc = e != NULL; if (p >= 0) { ok = M[p].key; ov = M[p].value; }
        if (e != NULL) cork_hash_table_delete_entry(T, e);
    }
    CHECK(rc == (p >= 0), "delete says whether the key was there");
    if (p >= 0) { CHECK(ok == M[p].key && ov == M[p].value, "what was deleted is handed back"); expect_free(p); drop(p); }
}
static void clear(void) { cork_hash_table_clear(T); for (unsigned i = 0; i < nM; i++) expect_free(i); nM = 0; }
static void frees(void)
{
    if (!owned) { CHECK(nfk == 0 && nfv == 0, "nothing is released without callbacks"); return; }
    CHECK(nfk == nx && nfv == nx, "everything removed is released, once");
    for (unsigned i = 0; i < nx; i++) CHECK(fk[i] == xk[i] && fv[i] == xv[i], "exactly what was removed is released");
}
/* the table is the model; lookups of key classes 0..classes-1 */
static unsigned stride = 1;
static void same(unsigned classes)
{
    struct cork_hash_table_iterator it; struct cork_hash_table_entry *e;
    CHECK(cork_hash_table_size(T) == nM, "the number of entries");
    cork_hash_table_iterator_init(T, &it);
    for (unsigned i = 0; i < nM; i++) {
        e = cork_hash_table_iterator_next(&it);
        CHECK(e != NULL && e->key == M[i].key && e->value == M[i].value && e->hash == hash_of(M[i].c), "iteration gives every entry in order of insertion");
    }
    CHECK(cork_hash_table_iterator_next(&it) == NULL && cork_hash_table_iterator_next(&it) == NULL, "and then ends");
    for (unsigned c = 0; c < classes; c += stride) {
        int p = find(c);
        if (c & 1) e = cork_hash_table_get_entry(T, KEY(c, 3)); else e = cork_hash_table_get_entry_hash(T, hash_of(c), KEY(c, 3));
        CHECK((e == NULL) == (p < 0), "a key is found exactly if it is there");
        if (p >= 0) CHECK(e->key == M[p].key && e->value == M[p].value, "with its latest value");
        void *v = c & 1 ? cork_hash_table_get_hash(T, hash_of(c), KEY(c, 2)) : cork_hash_table_get(T, KEY(c, 2));
        CHECK(v == (p < 0 ? NULL : M[p].value), "get gives the latest value");
    }
}
static unsigned map_at, map_choice, map_n; 
static enum cork_hash_table_map_result mapper(void *u, struct cork_hash_table_entry *e)
{
    CHECK(u == &map_at, "the mapper gets its user data");
    CHECK(map_at < map_n && e->key == M[map_at].key && e->value == M[map_at].value, "map visits every entry in order of insertion");
    unsigned d = map_choice; for (unsigned i = 0; i < map_at; i++) d /= 3;
    map_at++;
    return d % 3 == 0 ? CORK_HASH_TABLE_MAP_CONTINUE : d % 3 == 1 ? CORK_HASH_TABLE_MAP_DELETE : CORK_HASH_TABLE_MAP_ABORT;
}
static void map(unsigned choice)
{
    unsigned kept = 0, at = 0, d = choice; bool stop = false;
    map_at = 0; map_n = nM; map_choice = choice;
    cork_hash_table_map(T, &map_at, mapper);
    for (unsigned i = 0; i < map_n; i++) {
        if (!stop) at++;
        if (!stop && d % 3 == 1) expect_free(i); else { M[kept] = M[i]; kept++; }
        if (d % 3 == 2) stop = true;
        d /= 3;
    }
    nM = kept;
    CHECK(map_at == at, "map visits entries until told to stop");
}
static void finish(void)
{
    cork_hash_table_free(T);
    for (unsigned i = 0; i < nM; i++) expect_free(i);
    frees();
    CHECK(nud == (owned ? 1 : 0), "the user data is released with the table, once");
    VP_NO_LEAK();
    WITNESS("case");
}
/* operations: 0..3 on each of n+1 keys, then clear, grow */
static void op(unsigned o, unsigned n, unsigned how)
{
    if (o < 4 * (n + 1)) {
        unsigned c = o / 4;
        switch (o % 4) {
        case 0: put(c, 1, how % 3); break;
        case 1: get_or_create(c, 1, how & 1); break;
        case 2: del(c, 1, how % 3); break;
        case 3: del(c, 1, 3); break;
        }
    } else if (o == 4 * (n + 1)) clear();
    else { cork_hash_table_ensure_size(T, how & 1 ? 17 : 9); }
}
static const uint8_t initial[] = { 0, 8, 9, 16 };
static void history(unsigned pat, unsigned n, unsigned o1, unsigned o2, unsigned z)
{
    start(pat, initial[z % 4], false);
    for (unsigned i = 0; i < n; i++) put(i, 0, i % 3);
    op(o1, n, z); same(n + 1);
    if (o2 != ~0u) { op(o2, n, z / 2); same(n + 1); }
    finish();
}
void h_table_ops(void)
{
    unsigned z = 0, nops = 4 * (PRE + 1) + 2;
    CASES();
    for (unsigned o1 = 0; o1 < nops; o1++) for (unsigned o2 = 0; o2 < nops; o2++) {
        if (o1 % 4 == 3 && o1 < 4 * PRE + 4 && o2 < 4 * PRE + 4) continue;   /* delete_entry first: only before the global ones */
        unsigned t = z++;
        CASE() { history(t % 4, PRE, o1, o2, t / 3); return; }
    }
    CASES_END();
}
/* growing past the density limit, with every kind of collisions */
void h_table_grow(void)
{
    CASES();
    for (unsigned pat = 0; pat < 4; pat++) for (unsigned how = 0; how < 2; how++)
        CASE() {
            start(pat, 0, false); stride = 6;
            for (unsigned i = 0; i < GROW; i++) if (how) get_or_create(i, 0, i & 1); else put(i, 0, i % 3);
            same(GROW + 1); del(0, 1, 0); del(GROW - 1, 1, 1); del(GROW / 2, 1, 3); put(0, 1, 0);
            same(GROW + 1); finish(); return;
        }
    CASES_END();
}
/* default comparison, and the string keys */
static char s1[] = "ab", s2[] = "ab", s3[] = "a", s4[] = "";
static void *key_of(unsigned kind, unsigned i)
{
    if (kind < 2) return i == 0 ? (void *) 32 : i == 1 ? (void *) 0x100000020 : i == 2 ? (void *) 48 : (void *) 35;
    return i == 0 ? s1 : i == 1 ? s2 : i == 2 ? s3 : s4;
}
static struct cork_hash_table *default_table(unsigned kind)
{ return kind == 0 ? cork_hash_table_new(0, 0) : kind == 1 ? cork_pointer_hash_table_new(7, 0) : cork_string_hash_table_new(5, 0); }
static void one_default(unsigned kind, unsigned x, unsigned y)
{
    vp_alloc_install();
    struct cork_hash_table *t = default_table(kind);
    void *a = fresh(), *b = fresh(); bool n;
    bool eq = x == y || (kind == 2 && x < 2 && y < 2);
    cork_hash_table_put_hash(t, 3, key_of(kind, x), a, &n, NULL, NULL);
    CHECK(n, "the first key is new");
    cork_hash_table_put_hash(t, 3, key_of(kind, y), b, &n, NULL, NULL);
    CHECK(n == !eq && cork_hash_table_size(t) == (eq ? 1 : 2), "equal keys are one key, others are not");
    CHECK(cork_hash_table_get_hash(t, 3, key_of(kind, x)) == (eq ? b : a) && cork_hash_table_get_hash(t, 3, key_of(kind, y)) == b, "latest value of the key");
    CHECK(cork_hash_table_get_entry_hash(t, 3, kind < 2 ? (void *) 36 : (void *) "b") == NULL, "other keys are absent");
    cork_hash_table_free(t);
    VP_NO_LEAK();
    WITNESS("case");
}
/* equal keys have the same hash: found through one table, whatever the bin */
static void one_hash(unsigned kind, unsigned x, unsigned y)
{
    vp_alloc_install();
    struct cork_hash_table *t = default_table(kind); bool n;
    struct cork_hash_table_entry *e = cork_hash_table_get_or_create(t, key_of(kind, x), &n);
    CHECK(n && e != NULL, "the first key is new");
    CHECK(cork_hash_table_get_entry(t, key_of(kind, y)) == e, "found under an equal key");
    WITNESS("case");
}
void h_table_default(void)
{
    CASES();
    for (unsigned kind = 0; kind < 3; kind++) for (unsigned x = 0; x < 4; x++) for (unsigned y = 0; y < 4; y++)
        CASE() { one_default(kind, x, y); return; }
    for (unsigned x = 0; x < 4; x++) {
        CASE() { one_hash(0, x, x); return; }
        CASE() { one_hash(2, x, x == 1 ? 0 : x == 0 ? 1 : x); return; }
    }
    CASES_END();
}
/* C22: lifetimes and maps */
void h_table_life(void)
{
    unsigned z = 0, nops = 4 * (PRE + 1) + 2;
    CASES();
    for (unsigned o = 0; o < nops; o++) {
        unsigned most = PRE + 1, total = 1; for (unsigned i = 0; i < most; i++) total *= 3;
        for (unsigned m = 0; m < total; m++) {
            bool end = false, dup = false; unsigned d = m;      /* nothing is chosen after an abort */
            for (unsigned i = 0; i < most; i++, d /= 3) { if (end && d % 3) dup = true; if (d % 3 == 2) end = true; }
            if (dup) continue;
            unsigned t = z++;
            CASE() {
                start(t % 4, 0, true);
                for (unsigned i = 0; i < PRE; i++) put(i, 0, i % 3);
                op(o, PRE, t % 3 == 2 ? 0 : 2); map(m); frees(); same(0);
                put(1, 2, 0); same(PRE + 1); finish(); return;
            }
        }
    }
    CASES_END();
}
