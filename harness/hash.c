/* C10: hashes against MurmurHash3 written out byte by byte. */
#include "vp.h"
#include "libcork/core/hash.h"
#ifndef LEN
#define LEN 4
#endif
static uint32_t rotl32(uint32_t x, int r) { return (x << r) | (x >> (32 - r)); }
static uint64_t rotl64(uint64_t x, int r) { return (x << r) | (x >> (64 - r)); }
static uint32_t mix32(uint32_t h)
{ h ^= h >> 16; h *= 0x85ebca6bu; h ^= h >> 13; h *= 0xc2b2ae35u; h ^= h >> 16; return h; }
static uint64_t mix64(uint64_t k)
{ k ^= k >> 33; k *= 0xff51afd7ed558ccdull; k ^= k >> 33; k *= 0xc4ceb9fe1a85ec53ull; k ^= k >> 33; return k; }

/* MurmurHash3_x86_32 over little-endian words */
static uint32_t ref32(uint32_t seed, const uint8_t *p, size_t len)
{
    uint32_t h = seed, k; size_t i = 0;
    for (; i + 4 <= len; i += 4) {
        k = (uint32_t) p[i] | (uint32_t) p[i + 1] << 8 | (uint32_t) p[i + 2] << 16 | (uint32_t) p[i + 3] << 24;
        k *= 0xcc9e2d51u; k = rotl32(k, 15); k *= 0x1b873593u;
        h ^= k; h = rotl32(h, 13); h = h * 5 + 0xe6546b64u;
    }
    if (i < len) {
        k = 0;
        for (size_t j = len; j > i; j--) k ^= (uint32_t) p[j - 1] << (8 * (j - 1 - i));
        k *= 0xcc9e2d51u; k = rotl32(k, 15); k *= 0x1b873593u; h ^= k;
    }
    h ^= (uint32_t) len;
    return mix32(h);
}
static uint64_t word64(const uint8_t *p)
{ uint64_t v; memcpy(&v, p, 8); return v; }
/* MurmurHash3_x64_128 over host-order words, seeded with both halves */
static void ref128(uint64_t *r1, uint64_t *r2, const uint8_t *p, size_t len)
{
    uint64_t h1 = *r1, h2 = *r2, k1, k2; size_t i = 0;
    const uint64_t c1 = 0x87c37b91114253d5ull, c2 = 0x4cf5ad432745937full;
    for (; i + 16 <= len; i += 16) {
        k1 = word64(p + i); k2 = word64(p + i + 8);
        k1 *= c1; k1 = rotl64(k1, 31); k1 *= c2; h1 ^= k1;
        h1 = rotl64(h1, 27); h1 += h2; h1 = h1 * 5 + 0x52dce729u;
        k2 *= c2; k2 = rotl64(k2, 33); k2 *= c1; h2 ^= k2;
        h2 = rotl64(h2, 31); h2 += h1; h2 = h2 * 5 + 0x38495ab5u;
    }
    size_t t = len - i;
    k1 = k2 = 0;
    for (size_t j = t; j > 8; j--) k2 ^= (uint64_t) p[i + j - 1] << (8 * (j - 9));
    if (t > 8) { k2 *= c2; k2 = rotl64(k2, 33); k2 *= c1; h2 ^= k2; }
    for (size_t j = t > 8 ? 8 : t; j > 0; j--) k1 ^= (uint64_t) p[i + j - 1] << (8 * (j - 1));
    if (t > 0) { k1 *= c1; k1 = rotl64(k1, 31); k1 *= c2; h1 ^= k1; }
    h1 ^= len; h2 ^= len;
    h1 += h2; h2 += h1;
    h1 = mix64(h1); h2 = mix64(h2);
    h1 += h2; h2 += h1;
    *r1 = h1; *r2 = h2;
}

void h_hash_stable(void)
{
    uint8_t *raw = malloc(LEN + 1), *p = raw + 1;   /* unaligned, nothing readable past the end */
    uint32_t seed = in_u32();
    in_bytes(p, LEN);
    CHECK(cork_stable_hash_buffer(seed, p, LEN) == ref32(seed, p, LEN), "stable hash is MurmurHash3 x86_32 of the bytes, little-endian");
    WITNESS("done");
    free(raw);
}
void h_hash_big(void)
{
    uint8_t *raw = malloc(LEN + 1), *p = raw + 1;
    uint64_t s1 = in_u64(), s2 = in_u64(), r1 = s1, r2 = s2;
    in_bytes(p, LEN);
    cork_big_hash seed; seed.u128 = cork_u128_from_64(s1, s2);
    cork_big_hash h = cork_big_hash_buffer(seed, p, LEN);
    ref128(&r1, &r2, p, LEN);
    CHECK(cork_u128_be64(h.u128, 0) == r1 && cork_u128_be64(h.u128, 1) == r2, "big hash is MurmurHash3 x64_128 of the bytes");
    WITNESS("done");
    free(raw);
}
void h_hash_buffer(void)
{
    uint8_t *raw = malloc(LEN + 1), *p = raw + 1;
    uint32_t seed = in_u32();
    uint64_t r1 = ((uint64_t) seed << 32) | seed, r2 = r1;
    in_bytes(p, LEN);
    ref128(&r1, &r2, p, LEN);
    CHECK(cork_hash_buffer(seed, p, LEN) == (uint32_t) (r1 >> 32), "hash is the leading word of the 128-bit hash");
    WITNESS("done");
    free(raw);
}
/* hashing a variable is hashing its bytes; equality of big hashes is equality
 * of all 128 bits */
void h_hash_misc(void)
{
    uint64_t v = in_u64(); uint32_t seed = in_u32(); cork_big_hash bs, h1, h2;
    bs.u128 = cork_u128_from_64(in_u64(), in_u64());
    CHECK(cork_stable_hash_variable(seed, v) == cork_stable_hash_buffer(seed, &v, sizeof v), "variable form");
    CHECK(cork_hash_variable(seed, v) == cork_hash_buffer(seed, &v, sizeof v), "variable form");
    h1 = cork_big_hash_variable(bs, v); h2 = cork_big_hash_buffer(bs, &v, sizeof v);
    CHECK(cork_big_hash_equal(h1, h2), "variable form");
    uint64_t a = in_u64(), b = in_u64(), c = in_u64(), d = in_u64();
    h1.u128 = cork_u128_from_64(a, b); h2.u128 = cork_u128_from_64(c, d);
    CHECK(cork_big_hash_equal(h1, h2) == (a == c && b == d), "equality compares every bit");
    WITNESS("done");
}
