/* Common vocabulary of the harnesses.  The same harness source is compiled
 * twice: by goto-cc, where every in_*() is a fresh symbolic value and CHECK is
 * an assertion for the solver; and by gcc with -DVP_REPLAY, where in_*() reads
 * the solver's values back from a tape so that a counterexample (or witness) is
 * executed against the real, natively compiled code under ASan/UBSan. */
#ifndef VP_H
#define VP_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>

#ifdef VP_REPLAY
uint64_t vp_next(void);
void vp_fail(const char *msg) __attribute__((noreturn));
void vp_assume_fail(const char *what) __attribute__((noreturn));
void vp_witness(const char *name);
#define ASSUME(c)     do { if (!(c)) vp_assume_fail(#c); } while (0)
#define CHECK(c, msg) do { if (!(c)) vp_fail(msg); } while (0)
#define WITNESS(name) vp_witness(name)
#define VP_IN(type, fn, nd) \
    static inline type __attribute__((unused)) fn(void) { return (type) vp_next(); }
#else
extern uint64_t vp_in;
#define ASSUME(c)     __CPROVER_assume(c)
/* what follows a failed check is not looked at: it stops replays as well */
#define CHECK(c, msg) do { _Bool vp_c = (c); __CPROVER_assert(vp_c, "CHECK: " msg); __CPROVER_assume(vp_c); } while (0)
#define WITNESS(name) __CPROVER_assert(0, "WITNESS: " name)
#define VP_IN(type, fn, nd) \
    type nd(void); \
    static inline type fn(void) { type v = nd(); vp_in = (uint64_t) v; return v; }
#endif

/* STUB(f): this harness stands in for the library or system function f.  For
 * the solver it simply defines f; in replays the linker routes the library's
 * calls to it (--wrap), and REAL(f) is the original. */
#ifdef VP_REPLAY
#define STUB(f) __wrap_##f
#define REAL(f) __real_##f
#else
#define STUB(f) f
#endif
/* Case splits: the solver picks the case, each case runs on concrete shapes. */
#ifndef CHUNKS
#define CHUNKS 1
#define CHUNK 0
#endif
#define CASES()      unsigned vp_sel = in_uint(), vp_k = 0
#define CASE()       if (vp_k++ % CHUNKS == CHUNK && vp_sel == vp_k - 1)
#define CASES_END()  ASSUME(vp_sel < vp_k)

VP_IN(uint8_t, in_u8, nondet_vp_u8)
VP_IN(int8_t, in_i8, nondet_vp_i8)
VP_IN(uint16_t, in_u16, nondet_vp_u16)
VP_IN(uint32_t, in_u32, nondet_vp_u32)
VP_IN(uint64_t, in_u64, nondet_vp_u64)
VP_IN(int, in_int, nondet_vp_int)
VP_IN(unsigned int, in_uint, nondet_vp_uint)
VP_IN(size_t, in_size, nondet_vp_size)
VP_IN(char, in_char, nondet_vp_char)
VP_IN(_Bool, in_bool_, nondet_vp_bool)

static inline bool __attribute__((unused)) in_bool(void) { return in_u8() & 1; }

/* a value in [lo,hi] */
static inline size_t __attribute__((unused))
in_range(size_t lo, size_t hi)
{
    size_t v = in_size();
    ASSUME(v >= lo && v <= hi);
    return v;
}
static inline unsigned __attribute__((unused))
in_choice(unsigned n)
{
    uint8_t v = in_u8();
    ASSUME(v < n);
    return v;
}
/* fill buf with n symbolic bytes */
static inline void __attribute__((unused))
in_bytes(void *buf, size_t n)
{
    for (size_t i = 0; i < n; i++) ((uint8_t *) buf)[i] = in_u8();
}
/* a NUL-terminated string of length 0..max in buf[max+1], otherwise arbitrary */
static inline size_t __attribute__((unused))
in_string(char *buf, size_t max)
{
    size_t len = max;
    for (size_t i = 0; i < max; i++) buf[i] = (char) in_u8();
    buf[max] = '\0';
    for (size_t i = max; i > 0; i--) if (buf[i-1] == '\0') len = i - 1;
    return len;
}
#endif
