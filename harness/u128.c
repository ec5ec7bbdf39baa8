/* C05 (128-bit arithmetic) and C06 (128-bit text). */
#ifndef PADDED
#define PADDED 0
#endif
#ifndef BITS
#define BITS 1
#define SHIFT 0
#endif
#define VPPAD PADDED
#include "vp.h"
#include "libcork/core/u128.h"
typedef unsigned __int128 ref_t;

static ref_t ref_of(cork_u128 v)
{ return ((ref_t) cork_u128_be64(v, 0) << 64) | cork_u128_be64(v, 1); }
static cork_u128 in_u128(ref_t *r)
{
    uint64_t hi = in_u64(), lo = in_u64();
    *r = ((ref_t) hi << 64) | lo;
    return cork_u128_from_64(hi, lo);
}

void h_u128_compare(void)
{
    ref_t ra, rb;
    cork_u128 a = in_u128(&ra), b = in_u128(&rb);
    CHECK(cork_u128_eq(a, b) == (ra == rb), "eq");
    CHECK(cork_u128_ne(a, b) == (ra != rb), "ne");
    CHECK(cork_u128_lt(a, b) == (ra < rb), "lt");
    CHECK(cork_u128_le(a, b) == (ra <= rb), "le");
    CHECK(cork_u128_gt(a, b) == (ra > rb), "gt");
    CHECK(cork_u128_ge(a, b) == (ra >= rb), "ge");
    if (ra < rb && (uint64_t) ra > (uint64_t) rb) WITNESS("high part decides");
}

void h_u128_addsub(void)
{
    ref_t ra, rb;
    cork_u128 a = in_u128(&ra), b = in_u128(&rb);
    CHECK(ref_of(cork_u128_add(a, b)) == (ref_t) (ra + rb), "add is addition modulo 2^128");
    CHECK(ref_of(cork_u128_sub(a, b)) == (ref_t) (ra - rb), "sub is subtraction modulo 2^128");
    if ((ref_t) (ra + rb) < ra && (uint64_t) rb == UINT64_MAX) WITNESS("carry out of both halves");
}

void h_u128_shift(void)
{
    ref_t ra;
    cork_u128 a = in_u128(&ra);
    unsigned s = in_choice(128);
    CHECK(ref_of(cork_u128_shl(a, s)) == (ref_t) (ra << s), "shl");
    CHECK(ref_of(cork_u128_shr(a, s)) == (ref_t) (ra >> s), "shr");
    if (s == 64) WITNESS("shift by 64");
    if (s > 64) WITNESS("shift by more than 64");
    if (s > 0 && s < 64) WITNESS("shift by less than 64");
}

/* construction and big-endian-ordered access */
void h_u128_access(void)
{
    uint32_t i0 = in_u32(), i1 = in_u32(), i2 = in_u32(), i3 = in_u32();
    cork_u128 v = cork_u128_from_32(i0, i1, i2, i3);
    uint64_t h = ((uint64_t) i0 << 32) | i1, l = ((uint64_t) i2 << 32) | i3;
    ref_t r = ((ref_t) h << 64) | l;
    CHECK(ref_of(v) == r, "from_32 takes its parts most significant first");
    CHECK(ref_of(cork_u128_from_64(h, l)) == r, "from_64 takes its parts most significant first");
    CHECK(ref_of(cork_u128_zero()) == 0, "zero");
    for (int i = 0; i < 16; i++)
        CHECK(cork_u128_be8(v, i) == (uint8_t) (r >> (8 * (15 - i))), "be8");
    for (int i = 0; i < 8; i++)
        CHECK(cork_u128_be16(v, i) == (uint16_t) (r >> (16 * (7 - i))), "be16");
    for (int i = 0; i < 4; i++)
        CHECK(cork_u128_be32(v, i) == (uint32_t) (r >> (32 * (3 - i))), "be32");
    for (int i = 0; i < 2; i++)
        CHECK(cork_u128_be64(v, i) == (uint64_t) (r >> (64 * (1 - i))), "be64");
    WITNESS("done");
}

/* text */
static int hexval(char c)
{ return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }

void h_u128_hex(void)
{
    struct { char pre[8]; char buf[CORK_U128_HEX_LENGTH]; char post[8]; } m;
    ref_t r; cork_u128 v = in_u128(&r);
    memset(&m, 0x5a, sizeof m);
    const char *s = VPPAD ? cork_u128_to_padded_hex(m.buf, v) : cork_u128_to_hex(m.buf, v);
    CHECK(s >= m.buf && s < m.buf + sizeof m.buf, "result points into the buffer");
    ref_t acc = 0; unsigned n = 0; bool ok = true;
    for (unsigned i = 0; i < CORK_U128_HEX_LENGTH; i++) {
        if (s[i] == '\0') break;
        int d = hexval(s[i]);
        if (d < 0) ok = false;
        acc = (acc << 4) | (unsigned) (d & 15);
        n++;
    }
    CHECK(ok, "only lower-case hexadecimal digits");
    CHECK(n <= 32 && s[n] == '\0', "terminated within the buffer");
    CHECK(acc == r, "text denotes the value");
    if (VPPAD) CHECK(n == 32, "padded text has 32 digits");
    else CHECK(n >= 1 && (n == 1 || s[0] != '0'), "no leading zero");
    for (int i = 0; i < 8; i++)
        CHECK(m.pre[i] == 0x5a && m.post[i] == 0x5a, "nothing written outside the buffer");
    if ((uint64_t) (r >> 64) == 1 && (uint64_t) r == 7) WITNESS("zero-filled low half");
    if (r == 0) WITNESS("zero");
}

void h_u128_decimal(void)
{
    struct { char pre[8]; char buf[CORK_U128_DECIMAL_LENGTH]; char post[8]; } m;
    ref_t r = 0; 
    /* the value is assembled from BITS consecutive symbolic bits at SHIFT */
    for (unsigned i = 0; i < BITS; i++) if (in_bool()) r |= (ref_t) 1 << (SHIFT + i);
#ifdef ONES
    r = ~r;
#endif
    memset(&m, 0x5a, sizeof m);
    const char *s = cork_u128_to_decimal(m.buf, cork_u128_from_64((uint64_t) (r >> 64), (uint64_t) r));
    CHECK(s >= m.buf && s < m.buf + sizeof m.buf, "result points into the buffer");
    ref_t acc = 0; unsigned n = 0; bool ok = true, ovf = false;
    for (unsigned i = 0; i < CORK_U128_DECIMAL_LENGTH; i++) {
        if (s[i] == '\0') break;
        if (s[i] < '0' || s[i] > '9') ok = false;
        acc = acc * 10 + (unsigned) (s[i] - '0');
        n++;
    }
    CHECK(ok, "only decimal digits");
    CHECK(n <= 39 && s[n] == '\0', "at most 39 digits, terminated");
    CHECK(acc == r, "text denotes the value");
    CHECK(n >= 1 && (n == 1 || s[0] != '0'), "no leading zero");
    for (int i = 0; i < 8; i++)
        CHECK(m.pre[i] == 0x5a && m.post[i] == 0x5a, "nothing written outside the buffer");
    WITNESS("done");
}
