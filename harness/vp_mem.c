/* Solver-side byte-by-byte definitions of the mem* functions: CBMC's own models
 * build symbolic-length arrays, which are slow and imprecise for memmove. */
#include <stddef.h>
#include <stdint.h>
static int rw(const void *p, size_t n) { return n == 0 || __CPROVER_r_ok(p, n); }
void *memcpy(void *d, const void *s, size_t n)
{
    __CPROVER_precondition(rw(s, n), "memcpy source region readable");
    __CPROVER_precondition(n == 0 || __CPROVER_w_ok(d, n), "memcpy destination region writeable");
    for (size_t i = 0; i < n; i++) ((char *) d)[i] = ((const char *) s)[i];
    return d;
}
void *memmove(void *d, const void *s, size_t n)
{
    __CPROVER_precondition(rw(s, n), "memmove source region readable");
    __CPROVER_precondition(n == 0 || __CPROVER_w_ok(d, n), "memmove destination region writeable");
    if (!__CPROVER_same_object(d, s) || __CPROVER_POINTER_OFFSET(d) <= __CPROVER_POINTER_OFFSET(s)) {
        for (size_t i = 0; i < n; i++) ((char *) d)[i] = ((const char *) s)[i];
    } else {
        for (size_t i = n; i > 0; i--) ((char *) d)[i - 1] = ((const char *) s)[i - 1];
    }
    return d;
}
void *memset(void *d, int c, size_t n)
{
    __CPROVER_precondition(n == 0 || __CPROVER_w_ok(d, n), "memset destination region writeable");
    for (size_t i = 0; i < n; i++) ((char *) d)[i] = (char) c;
    return d;
}
int memcmp(const void *a, const void *b, size_t n)
{
    __CPROVER_precondition(rw(a, n), "memcmp region 1 readable");
    __CPROVER_precondition(rw(b, n), "memcmp region 2 readable");
    for (size_t i = 0; i < n; i++) {
        int r = (int) ((const uint8_t *) a)[i] - (int) ((const uint8_t *) b)[i];
        if (r != 0) return r;
    }
    return 0;
}
