#include "vp.h"
#include "libcork/core/error.h"
#include "libcork/core/net-addresses.h"

#ifndef N
#define N 16
#endif

/* ---- reference recognisers, written from the documented grammar ---- */

/* four decimal numbers in 0..255, each at least one digit, separated by single
 * dots, nothing else */
static bool ref_ipv4(const char *s, uint8_t out[4])
{
    unsigned oct = 0, val = 0, nd = 0;
    for (size_t i = 0; i <= N; i++) {
        char c = s[i];
        if (c >= '0' && c <= '9') {
            val = val * 10 + (unsigned) (c - '0');
            nd++;
            if (val > 255) return false;
        } else if (c == '.' || c == '\0') {
            if (nd == 0 || oct > 3) return false;
            out[oct++] = (uint8_t) val;
            val = 0; nd = 0;
            if (c == '\0') return oct == 4;
        } else return false;
    }
    return false;
}

/* RFC 4291 section 2.2: 8 groups of 1-4 hex digits; or fewer, with exactly one
 * "::" standing for one or more zero groups; the last two groups may be written
 * as a dotted quad.  Written as one left-to-right pass over an accumulator, with
 * no parse position other than the loop counter.
 * Returns 1 accept, 0 reject, 2 unspecified (dotted quad whose first octet has
 * more than four digits because of leading zeros). */
typedef unsigned __int128 u128_t;

static int ref_ipv6(const char *s, uint8_t out[16])
{
    u128_t head = 0, tail = 0;      /* groups before / after the "::" */
    unsigned nhead = 0, ntail = 0;
    bool gap = false;
    unsigned hex = 0, dec = 0, nd = 0;
    bool isdec = true;              /* this group consists of decimal digits */
    unsigned oct = 0;               /* dotted quad octets completed; >0: inside one */
    uint32_t quad = 0;
    char prev = 0;
    bool prev2colon = false;        /* prev and the one before it are both ':' */
    bool unspecified = false;
    for (size_t i = 0; i <= N; i++) {
        char c = s[i];
        unsigned h = 16;
        if (c >= '0' && c <= '9') h = (unsigned) (c - '0');
        else if (c >= 'a' && c <= 'f') h = (unsigned) (c - 'a' + 10);
        else if (c >= 'A' && c <= 'F') h = (unsigned) (c - 'A' + 10);
        if (h < 16) {
            if (i == 1 && prev == ':') return 0;        /* a single leading colon */
            hex = (hex << 4) | h; nd++;
            if (h > 9) isdec = false;
            else { dec = dec * 10 + h; if (dec > 999) dec = 999; }
            if (oct > 0) {
                if (h > 9 || dec > 255) return 0;
            } else if (nd > 4) {
                if (!isdec || dec > 255) return 0;
                unspecified = true;                     /* unless no dot follows */
            }
        } else if (c == '.') {
            if (nd == 0 || !isdec || dec > 255 || oct == 3) return 0;
            if (oct == 0 && nhead + ntail > 6) return 0;
            if (i == 0) return 0;
            quad = (quad << 8) | dec; oct++;
            hex = dec = nd = 0;
        } else if (c == ':') {
            if (oct > 0 || unspecified) return 0;
            if (nd == 0) {
                if (i == 0) { /* must be "::" */ }
                else if (prev == ':' && !prev2colon && !gap) gap = true;
                else return 0;
            } else {
                if (gap) { tail = (tail << 16) | (hex & 0xffff); ntail++; }
                else { head = (head << 16) | (hex & 0xffff); nhead++; }
                if (nhead + ntail > 8) return 0;
                hex = dec = nd = 0; isdec = true;
            }
        } else if (c == '\0') {
            if (oct > 0) {
                if (nd == 0 || oct != 3) return 0;
                quad = (quad << 8) | dec;
                if (gap) { tail = (tail << 32) | quad; ntail += 2; }
                else { head = (head << 32) | quad; nhead += 2; }
            } else if (nd > 0) {
                if (unspecified) return 0;
                if (gap) { tail = (tail << 16) | (hex & 0xffff); ntail++; }
                else { head = (head << 16) | (hex & 0xffff); nhead++; }
            } else if (!prev2colon) {
                return 0;                   /* empty, or a trailing single colon */
            }
            if (gap ? nhead + ntail > 7 : nhead != 8) return 0;
            if (unspecified) return 2;
            if (gap && nhead > 0) head <<= 16 * (8 - nhead);
            head |= tail;
            for (unsigned k = 0; k < 16; k++) out[k] = (uint8_t) (head >> (120 - 8 * k));
            return 1;
        } else return 0;
        prev2colon = c == ':' && prev == ':';
        prev = c;
    }
    return 0;
}

static char str[N + 48];

void h_ipv4_parse(void)
{
    struct cork_ipv4 a, before;
    uint8_t ref[4];
    in_bytes(&before, sizeof before);
    a = before;
    in_string(str, N);
    int rc = cork_ipv4_init(&a, str);
    if (ref_ipv4(str, ref)) {
        CHECK(rc == 0, "every dotted quad is accepted");
        CHECK(memcmp(&a, ref, 4) == 0, "octets are stored in network order");
        WITNESS("accepted");
    } else {
        CHECK(rc == -1, "everything else is refused");
        CHECK(cork_error_code() == CORK_PARSE_ERROR, "refusal reports a parse error");
        CHECK(memcmp(&a, &before, 4) == 0, "a refused parse leaves the address alone");
        WITNESS("refused");
    }
}

void h_ipv6_parse(void)
{
    struct cork_ipv6 a, before;
    uint8_t ref[16];
    in_bytes(&before, sizeof before);
    a = before;
#ifdef PREFIX
    /* long addresses: TAIL arbitrary bytes after a fixed head; N is the sum */
    memcpy(str, PREFIX, sizeof PREFIX - 1);
    in_string(str + sizeof PREFIX - 1, TAIL);
#else
    in_string(str, N);
#endif
    int rc = cork_ipv6_init(&a, str);
    int r = ref_ipv6(str, ref);
    if (r == 1) {
        CHECK(rc == 0, "every RFC 4291 text form is accepted");
        CHECK(memcmp(&a, ref, 16) == 0, "groups are stored in network order");
        WITNESS("accepted");
    } else if (r == 0) {
        CHECK(rc == -1, "everything else is refused");
        CHECK(cork_error_code() == CORK_PARSE_ERROR, "refusal reports a parse error");
        CHECK(memcmp(&a, &before, 16) == 0, "a refused parse leaves the address alone");
        WITNESS("refused");
    }
}

/* is_valid_network: exactly when every bit after the prefix is zero */
static bool host_bits_zero(const uint8_t *p, unsigned bits, unsigned prefix)
{
    for (unsigned i = 0; i < bits; i++)
        if (i >= prefix && ((p[i / 8] >> (7 - i % 8)) & 1)) return false;
    return true;
}

void h_cidr4(void)
{
    struct cork_ipv4 a;
    struct cork_ip ip;
    unsigned prefix = in_uint();
    in_bytes(&a, sizeof a);
    bool want = prefix <= 32 && host_bits_zero((uint8_t *) &a, 32, prefix);
    CHECK(cork_ipv4_is_valid_network(&a, prefix) == want, "IPv4 network validity");
    cork_ip_from_ipv4(&ip, &a);
    CHECK(cork_ip_is_valid_network(&ip, prefix) == want, "generic IPv4 network validity");
    if (want && prefix == 13) WITNESS("valid");
    if (!want && prefix == 32) CHECK(false, "a /32 is always a network");
    if (!want && prefix == 7) WITNESS("invalid");
}

void h_cidr6(void)
{
    struct cork_ipv6 a;
    struct cork_ip ip;
    unsigned prefix = in_uint();
    in_bytes(&a, sizeof a);
    bool want = prefix <= 128 && host_bits_zero((uint8_t *) &a, 128, prefix);
    CHECK(cork_ipv6_is_valid_network(&a, prefix) == want, "IPv6 network validity");
    cork_ip_from_ipv6(&ip, &a);
    CHECK(cork_ip_is_valid_network(&ip, prefix) == want, "generic IPv6 network validity");
    if (want && prefix == 17) WITNESS("valid");
    if (!want && prefix == 101) WITNESS("invalid");
    ip.version = in_uint();
    ASSUME(ip.version != 4 && ip.version != 6);
    CHECK(!cork_ip_is_valid_network(&ip, prefix), "no network of an unknown family");
}

/* ---- rendering ---- */

/* what the library prints parses back to the same address, and fits */
void h_ipv4_roundtrip(void)
{
    struct cork_ipv4 a, b;
    struct cork_ip ip, ip2;
    char *s = malloc(CORK_IPV4_STRING_LENGTH);      /* exact size: overruns are caught */
    in_bytes(&a, 4);
    cork_ipv4_to_raw_string(&a, s);
    /* canonical decimal: reference rendering */
    char r[20]; unsigned n = 0;
    for (unsigned i = 0; i < 4; i++) {
        unsigned v = a._.u8[i];
        if (i) r[n++] = '.';
        if (v >= 100) r[n++] = (char) ('0' + v / 100);
        if (v >= 10) r[n++] = (char) ('0' + v / 10 % 10);
        r[n++] = (char) ('0' + v % 10);
    }
    r[n] = 0;
    CHECK(strcmp(s, r) == 0, "dotted quad without leading zeros");
    CHECK(cork_ipv4_init(&b, s) == 0, "rendered IPv4 text parses");
    CHECK(memcmp(&a, &b, 4) == 0, "and gives the same IPv4 address");
    CHECK(cork_ipv4_equal(&a, &b) && cork_ipv4_equal_(&a, &b), "equality of equal IPv4 addresses");
    WITNESS("done");
    free(s);
}

/* Case split that keeps the layout of the text concrete: which groups are zero
 * (all 256 masks over the runs), and how many hex digits the others have.
 * Within a case every value of every non-zero group is symbolic. */
#ifndef MLO
#define MLO 0
#define MHI 1
#define DIGITS 4
#endif
static void one_v6(unsigned mask)
{
    struct cork_ipv6 a;
    char *s = malloc(CORK_IPV6_STRING_LENGTH);
    for (unsigned i = 0; i < 8; i++) {
        if ((mask >> i) & 1) { a._.u8[2*i] = a._.u8[2*i+1] = 0; continue; }
        unsigned digits = DIGITS ? DIGITS : (i * 3 + mask) % 4 + 1;
        uint8_t hi = in_u8(), lo = in_u8();
        unsigned v = (hi << 8) | lo;
        if (digits == 1) { hi = 0; ASSUME(lo < 16 && lo > 0); }
        if (digits == 2) { hi = 0; ASSUME(lo >= 16); }
        if (digits == 3) { ASSUME(hi > 0); hi &= 15; ASSUME(hi > 0); }
        if (digits == 4) ASSUME(hi >= 16);
        a._.u8[2*i] = hi; a._.u8[2*i+1] = lo;
    }
    cork_ipv6_to_raw_string(&a, s);
    uint8_t ref[16];
    CHECK(ref_ipv6(s, ref) == 1, "rendered IPv6 text is valid");
    for (int k = 0; k < 16; k++)
        CHECK(a._.u8[k] == ref[k], "and denotes the same IPv6 address");
    WITNESS("rendered");
    free(s);
}

void h_ipv6_roundtrip(void)
{
    for (unsigned mask = MLO; mask < MHI; mask++) one_v6(mask);
}

/* equality and construction */
void h_ip_generic(void)
{
    uint8_t p[16], q[16];
    struct cork_ip x, y;
    struct cork_ipv6 a6, b6; struct cork_ipv4 a4, b4;
    in_bytes(p, 16); in_bytes(q, 16);
    bool same4 = true, same6 = true;
    for (int i = 0; i < 16; i++) if (p[i] != q[i]) { same6 = false; if (i < 4) same4 = false; }
    cork_ipv4_copy(&a4, p); cork_ipv4_copy(&b4, q);
    cork_ipv6_copy(&a6, p); cork_ipv6_copy(&b6, q);
    CHECK(memcmp(&a4, p, 4) == 0 && memcmp(&a6, p, 16) == 0, "copy stores the bytes");
    CHECK(cork_ipv4_equal(&a4, &b4) == same4, "IPv4 equality is byte equality");
    CHECK(cork_ipv6_equal(&a6, &b6) == same6, "IPv6 equality is byte equality");
    CHECK(cork_ipv4_equal_(&a4, &b4) == same4, "IPv4 equality function");
    CHECK(cork_ipv6_equal_(&a6, &b6) == same6, "IPv6 equality function");
    bool x6 = in_bool(), y6 = in_bool();
    /* unused union bytes are arbitrary */
    in_bytes(&x.ip, 16); in_bytes(&y.ip, 16);
    if (x6) cork_ip_from_ipv6(&x, p); else cork_ip_from_ipv4(&x, p);
    if (y6) cork_ip_from_ipv6(&y, q); else cork_ip_from_ipv4(&y, q);
    CHECK(x.version == (x6 ? 6 : 4), "version recorded");
    CHECK(y.version == (y6 ? 6 : 4), "version recorded by the function form");
    bool want = x6 == y6 && (x6 ? same6 : same4);
    CHECK(cork_ip_equal(&x, &y) == want, "generic equality needs the same family and bytes");
    if (want && !x6 && !same6) WITNESS("equal v4, different trailing bytes");
    if (want && x6) WITNESS("equal v6");
    if (!want && same6) WITNESS("families differ");
}

/* generic parse: IPv4 text gives version 4, IPv6 text version 6, else refused */
void h_ip_parse(void)
{
    struct cork_ip a, before;
    uint8_t r4[4], r6[16];
    before.version = in_uint();
    in_bytes(&before.ip, 16);
    a = before;
#ifdef PREFIX
    memcpy(str, PREFIX, sizeof PREFIX - 1);
    in_string(str + sizeof PREFIX - 1, TAIL);
#else
    in_string(str, N);
#endif
    int rc = cork_ip_init(&a, str);
    int k6 = ref_ipv6(str, r6);
    if (ref_ipv4(str, r4)) {
        CHECK(rc == 0 && a.version == 4 && memcmp(&a.ip.v4, r4, 4) == 0, "IPv4 text");
#ifndef NO4
        WITNESS("v4");
#endif
    } else if (k6 == 1) {
        CHECK(rc == 0 && a.version == 6 && memcmp(&a.ip.v6, r6, 16) == 0, "IPv6 text");
        CHECK(!cork_error_occurred(), "no stale error after an IPv6 parse");
#ifndef NO6
        WITNESS("v6");
#endif
    } else if (k6 == 0) {
        CHECK(rc == -1, "other text is refused");
        CHECK(cork_error_code() == CORK_PARSE_ERROR, "refusal reports a parse error");
        CHECK(a.version == before.version, "a refused parse leaves the version alone");
        CHECK(memcmp(&a.ip, &before.ip, 16) == 0, "a refused parse leaves the address alone");
        WITNESS("refused");
    }
}

/* generic rendering dispatches on the family */
void h_ip_print_dispatch(void)
{
    struct cork_ip a;
    char *s = malloc(CORK_IP_STRING_LENGTH), t[CORK_IP_STRING_LENGTH];
    a.version = in_uint();
    in_bytes(&a.ip, 4);
    for (int i = 4; i < 16; i++) ((uint8_t *) &a.ip)[i] = (uint8_t) (i == 5 ? 1 : 0);
    cork_ip_to_raw_string(&a, s);
    if (a.version == 4) { cork_ipv4_to_raw_string(&a.ip.v4, t); CHECK(strcmp(s, t) == 0, "v4 dispatch"); WITNESS("v4"); }
    else if (a.version == 6) { cork_ipv6_to_raw_string(&a.ip.v6, t); CHECK(strcmp(s, t) == 0, "v6 dispatch"); WITNESS("v6"); }
    else { CHECK(strcmp(s, "<INVALID>") == 0, "unknown family"); WITNESS("invalid"); }
    free(s);
}
