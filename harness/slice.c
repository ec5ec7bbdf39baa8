/* C18 managed buffer lifetime, C19 slice bounds */
#include "vp_alloc.h"
#include "libcork/core/error.h"
#include "libcork/ds/slice.h"
#include "libcork/ds/managed-buffer.h"
#include "libcork/ds/buffer.h"

/*---------------------------------------------------------------- C19 */
#define MAXB 6
static uint8_t data[MAXB], orig[MAXB];
static unsigned wfreed; static size_t wsize; static void *wbuf;
static void wrapped_free(void *b, size_t n)
{ CHECK(b == wbuf && n == wsize, "the freer gets the wrapped buffer and its size"); wfreed++; }

static void bytes_are(const struct cork_slice *s, const uint8_t *want, size_t n)
{
    CHECK(s->size == n, "a slice has the length asked for");
    for (size_t i = 0; i < MAXB; i++) if (i < n) CHECK(((const uint8_t *) s->buf)[i] == want[i], "a slice denotes exactly the bytes asked for");
}
static bool valid(size_t size, size_t off, size_t len) { return off <= size && len <= size - off; }
static void refused(int rc)
{
    CHECK(rc == -1, "an invalid slice is refused");
    CHECK(cork_error_occurred() && cork_error_code() == CORK_SLICE_ERROR + CORK_SLICE_INVALID_SLICE, "refusal sets the slice error");
}
/* kind of parent: 0 static, 1 copy-once, 2 wrapped managed, 3 copied managed */
static struct cork_managed_buffer *M; static struct cork_slice P;
static void make(unsigned kind, size_t size)
{
    vp_alloc_install(); cork_error_clear();
    wfreed = 0; M = NULL; wbuf = data; wsize = size;
    for (int i = 0; i < MAXB; i++) orig[i] = data[i] = in_u8();
    if (kind == 0) cork_slice_init_static(&P, data, size);
    else if (kind == 1) cork_slice_init_copy_once(&P, data, size);
    else {
        M = kind == 2 ? cork_managed_buffer_new(data, size, wrapped_free) : cork_managed_buffer_new_copy(data, size);
        CHECK(cork_managed_buffer_slice(&P, M, 0, size) == 0, "the whole buffer is a valid slice");
    }
}
/* op: 0 copy 1 copy_offset 2 light_copy 3 light_copy_offset; +8: fast variant */
static int do_copy(struct cork_slice *d, unsigned op, size_t off, size_t len)
{
    switch (op) {
    case 0: return cork_slice_copy(d, &P, off, len);
    case 1: return cork_slice_copy_offset(d, &P, off);
    case 2: return cork_slice_light_copy(d, &P, off, len);
    case 3: return cork_slice_light_copy_offset(d, &P, off);
    case 8: return cork_slice_copy_fast(d, &P, off, len);
    case 9: return cork_slice_copy_offset_fast(d, &P, off);
    case 10: return cork_slice_light_copy_fast(d, &P, off, len);
    default: return cork_slice_light_copy_offset_fast(d, &P, off);
    }
}
static void copy_case(unsigned kind, size_t size, unsigned op)
{
    struct cork_slice d; int rc;
    size_t off = in_size(), len = in_size();
    make(kind, size);
    d.buf = data; d.size = 3; d.iface = P.iface; d.user_data = NULL;
    if (op & 1) len = size - off;
    bool ok = off <= size && ((op & 1) || valid(size, off, len));
    if (op & 8) ASSUME(ok);
    rc = do_copy(&d, op, off, len);
    if (ok) { CHECK(rc == 0 && !cork_error_occurred(), "a slice within the buffer succeeds"); bytes_are(&d, orig + off, len); }
    else { refused(rc); CHECK(cork_slice_is_empty(&d) && d.size == 0, "a refused slice is empty"); }
    bytes_are(&P, orig, size);
    WITNESS("case");
}
#define SIZES(size) for (size_t size = 0; size <= MAXB; size += (size == 1 ? 4 : 1))
#define OPS(op, n) for (unsigned op = 0; op < n + 8; op++) if (op < n || op > 7)
void h_slice_copy(void)
{
    CASES();
    for (unsigned kind = 0; kind < 4; kind++) SIZES(size) OPS(op, 4)
        CASE() { copy_case(kind, size, op); return; }
    CASES_END();
}
/* what a copy keeps alive */
static void keep_case(unsigned kind, size_t size, unsigned op, size_t off, size_t len)
{
    struct cork_slice d;
    bool light = (op & 2) != 0;
    make(kind, size);
    bool ok = valid(size, off, len);
    int rc = do_copy(&d, op, off, len);
    CHECK((rc == 0) == ok, "a copy succeeds exactly within the buffer");
    if (light) { cork_slice_finish(&d); bytes_are(&P, orig, size); cork_slice_finish(&P); if (M) cork_managed_buffer_unref(M); }
    else {
        /* a full copy outlives the original, its data and its other references */
        if (kind == 1 && ok) for (int i = 0; i < MAXB; i++) data[i] = ~orig[i];
        bytes_are(&P, orig, size);
        if (M) cork_managed_buffer_unref(M);
        cork_slice_finish(&P);
        CHECK(cork_slice_is_empty(&P), "a finished slice is empty");
        if (ok) { CHECK(wfreed == 0, "a slice keeps the buffer alive"); bytes_are(&d, orig + off, len); }
        cork_slice_finish(&d);
        cork_slice_finish(&d);
    }
    if (kind == 2) CHECK(wfreed == 1, "freed exactly once");
    VP_NO_LEAK();
    WITNESS("case");
}
void h_slice_keep(void)
{
    CASES();
    for (unsigned kind = 0; kind < 4; kind++) for (size_t size = 0; size <= 2; size++) OPS(op, 4)
        for (size_t off = 0; off <= size; off++) for (size_t len = 0; off + len <= size + (op == 0 ? 1 : 0); len++) if (!(op & 1) || off + len == size)
            CASE() { keep_case(kind, size, op, off, len); return; }
    CASES_END();
}
/* slicing in place. op: 0 slice 1 slice_offset 2 advance_checked; +8 fast variants */
static void inplace_case(unsigned kind, size_t size, unsigned op)
{
    int rc = 0; const void *p = NULL;
    size_t off = in_size(), len = in_size();
    make(kind, size);
    const uint8_t *was = P.buf;
    bool ok = off <= size && ((op & 7) != 0 || valid(size, off, len));
    if ((op & 7) != 0) len = size - off;
    if (op & 8) ASSUME(ok);
    switch (op) {
    case 0: rc = cork_slice_slice(&P, off, len); break;
    case 1: rc = cork_slice_slice_offset(&P, off); break;
    case 2: p = cork_slice_advance_checked(&P, off); break;
    case 8: rc = cork_slice_slice_fast(&P, off, len); break;
    case 9: rc = cork_slice_slice_offset_fast(&P, off); break;
    default: p = cork_slice_advance(&P, off); break;
    }
    if ((op & 7) == 2) {
        if (ok) CHECK(p == was, "advancing returns the old position"); else CHECK(p == NULL, "a refused advance returns NULL");
        rc = ok ? 0 : -1;
    }
    if (ok) { CHECK(rc == 0 && !cork_error_occurred(), "a slice within the buffer succeeds"); bytes_are(&P, orig + off, len); }
    else { refused(rc); bytes_are(&P, orig, size); CHECK(P.buf == was, "a refused in-place slice is left alone"); }
    WITNESS("case");
}
void h_slice_inplace(void)
{
    CASES();
    for (unsigned kind = 0; kind < 4; kind++) SIZES(size) OPS(op, 3)
            CASE() { inplace_case(kind, size, op); return; }
    CASES_END();
}
/* slicing a managed buffer directly, and NULL parents */
static void managed_case(unsigned kind, size_t size, unsigned op)
{
    struct cork_slice d; int rc;
    size_t off = in_size(), len = in_size();
    make(kind, size);
    cork_slice_finish(&P);
    if (op == 1) len = size - off;
    bool ok = off <= size && (op == 1 || valid(size, off, len));
    rc = op == 0 ? cork_managed_buffer_slice(&d, M, off, len) : cork_managed_buffer_slice_offset(&d, M, off);
    if (ok) CHECK(rc == 0, "a slice within the buffer succeeds");
    else { refused(rc); CHECK(cork_slice_is_empty(&d) && d.size == 0, "a refused slice is empty"); }
    if (ok) { CHECK(wfreed == 0, "a slice keeps the buffer alive"); bytes_are(&d, orig + off, len); }
    WITNESS("case");
}
static void null_case(unsigned op)
{
    struct cork_slice d; size_t off = in_size(), len = in_size(); int rc = 0;
    cork_error_clear();
    d.buf = data; d.size = 2; d.iface = NULL; d.user_data = NULL;
    switch (op) {
    case 0: rc = cork_slice_copy(&d, NULL, off, len); break;
    case 1: rc = cork_slice_copy_offset(&d, NULL, off); break;
    case 2: rc = cork_slice_light_copy(&d, NULL, off, len); break;
    case 3: rc = cork_slice_light_copy_offset(&d, NULL, off); break;
    case 4: rc = cork_managed_buffer_slice(&d, NULL, off, len); break;
    case 5: rc = cork_managed_buffer_slice_offset(&d, NULL, off); break;
    case 6: rc = cork_slice_slice(NULL, off, len); break;
    case 7: rc = cork_slice_slice_offset(NULL, off); break;
    case 8: rc = cork_slice_advance_checked(NULL, off) == NULL ? -1 : 0; break;
    }
    refused(rc);
    if (op < 6) CHECK(cork_slice_is_empty(&d) && d.size == 0, "a refused slice is empty");
    WITNESS("case");
}
void h_slice_managed(void)
{
    CASES();
    for (unsigned kind = 2; kind < 4; kind++) SIZES(size)
        for (unsigned op = 0; op < 2; op++) CASE() { managed_case(kind, size, op); return; }
    for (unsigned op = 0; op < 9; op++) CASE() { null_case(op); return; }
    CASES_END();
}
static void equal_case(size_t a, size_t b)
{
    uint8_t x[4], y[4]; struct cork_slice s, t;
    in_bytes(x, 4); in_bytes(y, 4);
    uint8_t *xp = vp_exact(a), *yp = vp_exact(b);
    for (size_t i = 0; i < a; i++) xp[i] = x[i];
    for (size_t i = 0; i < b; i++) yp[i] = y[i];
    cork_slice_init_static(&s, xp, a); cork_slice_init_copy_once(&t, yp, b);
    bool same = a == b;
    for (size_t i = 0; i < 4; i++) if (i < a && i < b && x[i] != y[i]) same = false;
    CHECK(cork_slice_equal(&s, &t) == same, "equal exactly when the bytes are");
    CHECK(cork_slice_equal(&t, &s) == same && cork_slice_equal(&s, &s), "symmetric and reflexive");
    vp_exact_free(xp, a ? a : 1); vp_exact_free(yp, b ? b : 1);
    WITNESS("case");
}
void h_slice_equal(void)
{
    CASES();
    for (size_t a = 0; a <= 4; a++) for (size_t b = 0; b <= 4; b++) CASE() { equal_case(a, b); return; }
    CASES_END();
}
/*---------------------------------------------------------------- C18 */
#ifndef SEQS
#define SEQS 0
#endif
#ifndef STEPS
#define STEPS 4
#endif
#ifndef SLOTS
#define SLOTS 2
#endif
/* Reference operations: 0 ref, 1 unref, 2 slice the buffer, 3 copy / 4 light
 * copy of the first slice, 5 / 6 finish the first / last slice, 7 light copy of
 * the last slice.  Slices fill the first free slot. */
#define NOP 8
struct hist { unsigned refs; bool on[SLOTS]; int lightof[SLOTS]; };
static int first(const struct hist *h, bool v) { for (int k = 0; k < SLOTS; k++) if (h->on[k] == v) return k; return -1; }
static int last(const struct hist *h) { for (int k = SLOTS - 1; k >= 0; k--) if (h->on[k]) return k; return -1; }
static unsigned count(const struct hist *h) { unsigned t = h->refs; for (int k = 0; k < SLOTS; k++) t += h->on[k]; return t; }
/* what an operation does to the references; false if it does not apply */
static bool step(struct hist *h, unsigned op, int *from, int *to)
{
    *to = first(h, false); *from = op == 6 || op == 7 ? last(h) : first(h, true);
    if (op == 0 || op == 1) { if (h->refs == 0) return false; if (op == 0) h->refs++; else h->refs--; return true; }
    if (op == 2) { if (h->refs == 0 || *to < 0) return false; h->on[*to] = true; h->lightof[*to] = -1; return true; }
    if (*from < 0) return false;
    if (op == 6 && first(h, true) == *from) return false;
    if (op == 7 && first(h, true) == *from) return false;
    if (op == 5 || op == 6) {
        for (int k = 0; k < SLOTS; k++) if (h->on[k] && h->lightof[k] == *from) return false;
        h->on[*from] = false; return true;
    }
    if (*to < 0) return false;
    h->on[*to] = true; h->lightof[*to] = op == 3 ? -1 : *from;
    return true;
}
static void start(struct hist *h) { h->refs = 1; for (int k = 0; k < SLOTS; k++) { h->on[k] = false; h->lightof[k] = -1; } }
static void life(unsigned kind, unsigned seq)
{
    struct cork_slice s[SLOTS]; size_t off[SLOTS] = { 0 }, len[SLOTS] = { 0 };
    struct hist h; int f, t;
    make(kind, 4);
    cork_slice_finish(&P);
    start(&h);
    for (int i = 0; i < STEPS && count(&h) != 0; i++, seq /= NOP) {
        unsigned op = seq % NOP;
        step(&h, op, &f, &t);
        size_t o = i & 1, l = (op > 2 ? len[f < 0 ? 0 : f] : 4) - o;
        if (op > 2 && op != 5 && op != 6 && f >= 0 && len[f] == 0) o = l = 0;
        if (op == 0) CHECK(cork_managed_buffer_ref(M) == M, "ref returns its argument");
        else if (op == 1) cork_managed_buffer_unref(M);
        else if (op == 2) {
            CHECK(cork_managed_buffer_slice(&s[t], M, o, l) == 0, "valid slice");
            off[t] = o; len[t] = l;
        } else if (op == 5 || op == 6) { cork_slice_finish(&s[f]); CHECK(cork_slice_is_empty(&s[f]), "a finished slice is empty"); }
        else {
            CHECK((op == 3 ? cork_slice_copy(&s[t], &s[f], o, l) : cork_slice_light_copy(&s[t], &s[f], o, l)) == 0, "valid copy");
            off[t] = off[f] + o; len[t] = l;
        }
        if (kind == 2) CHECK(wfreed == (count(&h) == 0), "freed exactly when the last reference goes");
        CHECK((vp_live == 0) == (count(&h) == 0), "the buffer lives exactly as long as it is referenced");
        for (int k = 0; k < SLOTS; k++) if (h.on[k]) {
            CHECK(s[k].size == len[k], "length");
            for (size_t b = 0; b < 4; b++) if (b < len[k]) CHECK(((const uint8_t *) s[k].buf)[b] == orig[off[k] + b], "contents are those given at creation");
        }
    }
    WITNESS("case");
}
void h_managed_life(void)
{
    /* the possible sequences, listed by tools/spec.py */
    static const uint16_t seqs[] = { SEQS };
    CASES();
    for (unsigned kind = 2; kind < 4; kind++) for (unsigned i = 0; i < sizeof seqs / sizeof *seqs; i++)
        CASE() { life(kind, seqs[i]); return; }
    CASES_END();
}
