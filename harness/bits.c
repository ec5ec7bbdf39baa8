/* C07 byte order, C08 timestamp conversion. */
#ifndef DENOM
#define DENOM 1000ULL
#define UNIT msec
#endif
#include "vp.h"
#include "libcork/core/byte-order.h"
#include "libcork/core/u128.h"
#include "libcork/core/timestamp.h"

static uint64_t rev(uint64_t v, int n)
{
    uint64_t r = 0;
    for (int i = 0; i < n; i++) r = (r << 8) | ((v >> (8 * i)) & 0xff);
    return r;
}
static void be(uint8_t *p, uint64_t v, int n)
{ for (int i = 0; i < n; i++) p[i] = (uint8_t) (v >> (8 * (n - 1 - i))); }
static void le(uint8_t *p, uint64_t v, int n)
{ for (int i = 0; i < n; i++) p[i] = (uint8_t) (v >> (8 * i)); }

/* the argument may be any expression: M is applied to variables and to
 * expressions built with operators of every precedence class */
#define EXPRS(M, R, T, n, msg) do { \
    CHECK((T) M(a) == (T) R((T) a, n), msg " (variable)"); \
    CHECK((T) M(a + b) == (T) R((T) (a + b), n), msg " (sum)"); \
    CHECK((T) M(a - b) == (T) R((T) (a - b), n), msg " (difference)"); \
    CHECK((T) M(a | b) == (T) R((T) (a | b), n), msg " (bitwise or)"); \
    CHECK((T) M(a ^ b) == (T) R((T) (a ^ b), n), msg " (exclusive or)"); \
    CHECK((T) M(a & b) == (T) R((T) (a & b), n), msg " (bitwise and)"); \
    CHECK((T) M(a << 3) == (T) R((T) (a << 3), n), msg " (shift)"); \
    CHECK((T) M(wide >> 3) == (T) R((T) (wide >> 3), n), msg " (narrowing)"); \
    CHECK((T) M(c ? a : b) == (T) R((T) (c ? a : b), n), msg " (conditional)"); \
    CHECK((T) M(a < b) == (T) R((T) (a < b), n), msg " (comparison)"); \
    CHECK((T) M(~a) == (T) R((T) ~a, n), msg " (complement)"); \
} while (0)
#define SAME(v, n) (v)
#if CORK_HOST_ENDIANNESS == CORK_LITTLE_ENDIAN
#define R_BIG rev
#define R_LITTLE SAME
#else
#define R_BIG SAME
#define R_LITTLE rev
#endif

#define SUITE(W, T, n) do { \
    T a = (T) in_u64(), b = (T) in_u64(); uint64_t wide = in_u64(); bool c = in_bool(); \
    EXPRS(CORK_SWAP_UINT##W, rev, T, n, "swap reverses the bytes"); \
    EXPRS(CORK_UINT##W##_BIG_TO_HOST, R_BIG, T, n, "big to host"); \
    EXPRS(CORK_UINT##W##_LITTLE_TO_HOST, R_LITTLE, T, n, "little to host"); \
    EXPRS(CORK_UINT##W##_HOST_TO_BIG, R_BIG, T, n, "host to big"); \
    EXPRS(CORK_UINT##W##_HOST_TO_LITTLE, R_LITTLE, T, n, "host to little"); \
    T x; uint8_t m[8]; \
    x = a; CORK_SWAP_IN_PLACE_UINT##W(x); CHECK(x == (T) rev(a, n), "in-place swap"); \
    x = a; CORK_UINT##W##_HOST_TO_BIG_IN_PLACE(x); be(m, a, n); \
    CHECK(memcmp(&x, m, n) == 0, "host to big in place: most significant byte first in memory"); \
    CORK_UINT##W##_BIG_TO_HOST_IN_PLACE(x); CHECK(x == a, "big round trip in place"); \
    x = a; CORK_UINT##W##_HOST_TO_LITTLE_IN_PLACE(x); le(m, a, n); \
    CHECK(memcmp(&x, m, n) == 0, "host to little in place: least significant byte first in memory"); \
    CORK_UINT##W##_LITTLE_TO_HOST_IN_PLACE(x); CHECK(x == a, "little round trip in place"); \
    T arr[2] = { a, b }; size_t i = c; \
    CORK_SWAP_IN_PLACE_UINT##W(arr[i & 1]); \
    CHECK(arr[i] == (T) rev(c ? b : a, n) && arr[1 - i] == (c ? a : b), "in-place swap of an element"); \
} while (0)

void h_swap16(void) { SUITE(16, uint16_t, 2); WITNESS("done"); }
void h_swap32(void) { SUITE(32, uint32_t, 4); WITNESS("done"); }
void h_swap64(void) { SUITE(64, uint64_t, 8); WITNESS("done"); }

void h_swap128(void)
{
    uint8_t raw[16], out[16];
    cork_u128 v, w[2];
    in_bytes(raw, 16);
    memcpy(&v, raw, 16);
    cork_u128 s = CORK_SWAP_UINT128(v);
    memcpy(out, &s, 16);
    for (int i = 0; i < 16; i++) CHECK(out[i] == raw[15 - i], "128-bit swap reverses the bytes");
    w[0] = v; w[1] = s;
    size_t k = in_choice(2);
    CORK_SWAP_IN_PLACE_UINT128(w[k]);
    CHECK(cork_u128_eq(w[k], k ? v : s), "in-place swap");
    CHECK(cork_u128_eq(w[1 - k], k ? v : s), "the other element is unchanged");
    /* value <-> wire order */
    uint64_t hi = in_u64(), lo = in_u64();
    cork_u128 x = cork_u128_from_64(hi, lo), y, z;
    uint8_t mb[16], ml[16];
    be(mb, hi, 8); be(mb + 8, lo, 8);
    le(ml, lo, 8); le(ml + 8, hi, 8);
    y = CORK_UINT128_HOST_TO_BIG(x);
    CHECK(memcmp(&y, mb, 16) == 0, "host to big");
    z = CORK_UINT128_BIG_TO_HOST(y);
    CHECK(cork_u128_eq(z, x), "big round trip");
    y = CORK_UINT128_HOST_TO_LITTLE(x);
    CHECK(memcmp(&y, ml, 16) == 0, "host to little");
    z = CORK_UINT128_LITTLE_TO_HOST(y);
    CHECK(cork_u128_eq(z, x), "little round trip");
    y = x; CORK_UINT128_HOST_TO_BIG_IN_PLACE(y);
    CHECK(memcmp(&y, mb, 16) == 0, "host to big in place");
    CORK_UINT128_BIG_TO_HOST_IN_PLACE(y);
    CHECK(cork_u128_eq(y, x), "big round trip in place");
    y = x; CORK_UINT128_HOST_TO_LITTLE_IN_PLACE(y);
    CHECK(memcmp(&y, ml, 16) == 0, "host to little in place");
    CORK_UINT128_LITTLE_TO_HOST_IN_PLACE(y);
    CHECK(cork_u128_eq(y, x), "little round trip in place");
    WITNESS("done");
}

/* ---- timestamps ---- */
void h_ts_parts(void)
{
    cork_timestamp ts;
    uint32_t sec = in_u32(), g = in_u32();
    cork_timestamp_init_sec(&ts, sec);
    CHECK(cork_timestamp_sec(ts) == sec && cork_timestamp_gsec(ts) == 0, "init_sec");
    cork_timestamp_init_gsec(&ts, sec, g);
    CHECK(cork_timestamp_sec(ts) == sec && cork_timestamp_gsec(ts) == g, "init_gsec");
    /* the order of timestamps is the order of time */
    uint32_t sec2 = in_u32(), g2 = in_u32(); cork_timestamp t2;
    cork_timestamp_init_gsec(&t2, sec2, g2);
    CHECK((ts < t2) == (sec < sec2 || (sec == sec2 && g < g2)), "timestamps order as (sec, gsec)");
    WITNESS("done");
}

#define UNIT_(u) cork_timestamp_init_##u
#define INIT2(u) UNIT_(u)
#define GET_(u) cork_timestamp_##u
#define GET2(u) GET_(u)
/* setting a fractional part and reading it back in the same unit */
void h_ts_unit_roundtrip(void)
{
    cork_timestamp ts;
    uint32_t sec = in_u32(), f = in_u32();
    ASSUME(f < DENOM);
    INIT2(UNIT)(&ts, sec, f);
    CHECK(cork_timestamp_sec(ts) == sec, "the fraction does not leak into the seconds");
    uint64_t g = cork_timestamp_gsec(ts);
    /* gsec is the fraction in units of 2^-32 s, to within one unit */
    uint64_t lhs = g * DENOM, rhs = (uint64_t) f << 32;
    CHECK(lhs <= rhs + DENOM && rhs <= lhs + DENOM, "fraction translated into gammaseconds");
    CHECK(GET2(UNIT)(ts) == f, "fraction reads back unchanged");
    if (f == DENOM - 1) WITNESS("largest fraction");
}

/* reading any fraction in the unit */
void h_ts_unit_read(void)
{
    cork_timestamp ts;
    uint32_t sec = in_u32(), g = in_u32();
    cork_timestamp_init_gsec(&ts, sec, g);
    uint64_t r = GET2(UNIT)(ts);
    CHECK(r < DENOM, "a fractional part is less than one second");
    uint64_t lhs = r << 32, rhs = (uint64_t) g * DENOM, slack = ((uint64_t) 1 << 31) + DENOM;
    CHECK(lhs <= rhs + slack, "not more than the nearest unit");
    CHECK(rhs <= lhs + slack || (r == DENOM - 1), "not less than the nearest unit");
    CHECK(cork_timestamp_gsec_to_units(ts, DENOM) == r, "gsec_to_units agrees");
    if (g == UINT32_MAX) WITNESS("just below the next second");
}
