/* C09 timestamp formatting */
#include "vp_alloc.h"
#include <time.h>
#include <stdarg.h>
#include "libcork/core/error.h"
#include "libcork/core/timestamp.h"
#include "libcork/ds/buffer.h"

#ifndef VP_REPLAY
struct vp_logged { char *at; unsigned digits; uint64_t value; };
extern struct vp_logged vp_log[16]; extern unsigned vp_nlog;
#endif
/* The C library's calendar: any broken-down time; the harness notes which
 * conversion was asked for and what for. */
static struct tm TM; static time_t asked; static int utc_calls, local_calls;
struct tm *STUB(gmtime_r)(const time_t *t, struct tm *r) { asked = *t; utc_calls++; *r = TM; return r; }
struct tm *STUB(localtime_r)(const time_t *t, struct tm *r) { asked = *t; local_calls++; *r = TM; return r; }

#ifndef CAP
#define CAP 64
#endif
static char want[CAP]; static size_t nw;
static void put(char c) { want[nw++] = c; }
/* a number is expected at a place; its digits are checked by what they denote */
static struct { size_t at; unsigned digits; uint64_t value; } num[8]; static unsigned nn;
static void put_num(uint64_t v, unsigned digits)
{
    num[nn].at = nw; num[nn].digits = digits; num[nn].value = v; nn++;
    for (unsigned i = 0; i < digits; i++) put('#');
}
static unsigned sec_digits; static uint64_t sec_lo, sec_hi;   /* how many digits the seconds have */
static void seconds_of(unsigned k)
{
    sec_digits = k; sec_lo = 0; sec_hi = 10;
    for (unsigned i = 1; i < k; i++) { sec_lo = sec_hi; sec_hi *= 10; }
}
static void put_dec(uint64_t v)
{
    put_num(v, sec_digits);
}
/* The documented meaning of a format string.  *care becomes false where the
 * documentation says nothing (a width on something other than a fraction). */
static bool model(const char *f, uint64_t ts, bool *care)
{
    *care = true;
    for (size_t i = 0; f[i] != '\0'; i++) {
        if (f[i] != '%') { put(f[i]); continue; }
        unsigned width = 0, digits = 0;
        for (i++; f[i] >= '0' && f[i] <= '9'; i++) { digits++; if (width < 1000) width = width * 10 + (f[i] - '0'); }
        switch (f[i]) {
        case '\0': return false;
        case '%': put('%'); break;
        case 'Y': put_num(TM.tm_year + 1900, 4); break;
        case 'm': put_num(TM.tm_mon + 1, 2); break;
        case 'd': put_num(TM.tm_mday, 2); break;
        case 'H': put_num(TM.tm_hour, 2); break;
        case 'M': put_num(TM.tm_min, 2); break;
        case 'S': put_num(TM.tm_sec, 2); break;
        case 's': put_dec(ts >> 32); break;
        case 'f': {
            if (width == 0 || width > 9) return false;
            uint64_t denom = 1;
            for (unsigned k = 0; k < width; k++) denom *= 10;
            put_num(cork_timestamp_gsec_to_units(ts, denom), width);
            break;
        }
        default: return false;
        }
        if (digits > 0 && f[i] != 'f') *care = false;
    }
    return true;
}
static void compare(const char *fmt, uint64_t ts, bool local)
{
    struct cork_buffer b = CORK_BUFFER_INIT();
    bool care; size_t keep = 2;
    cork_error_clear(); utc_calls = local_calls = 0; nw = 0; nn = 0;
    cork_buffer_ensure_size(&b, CAP);
    vp_frozen = true;
    cork_buffer_append(&b, "@%", 2);
    put('@'); put('%');
    bool ok = model(fmt, ts, &care);
    int rc = local ? cork_timestamp_format_local(ts, fmt, &b) : cork_timestamp_format_utc(ts, fmt, &b);
    CHECK(local ? local_calls == 1 && utc_calls == 0 : utc_calls == 1 && local_calls == 0, "broken down in the right time zone, once");
    CHECK(asked == (time_t) (ts >> 32), "the calendar gets the timestamp's seconds");
    if (!care) return;
    CHECK((rc == 0) == ok && (rc == 0 || rc == -1), "a format is refused exactly when it is invalid");
    CHECK(cork_error_occurred() == !ok, "a refusal is an error");
    CHECK(b.size >= keep && ((char *) b.buf)[0] == '@' && ((char *) b.buf)[1] == '%', "what was in the buffer stays");
    if (ok) {
        CHECK(b.size == nw, "length of the formatted text");
        for (size_t i = 0; i < CAP; i++) if (i < nw && want[i] != '#') CHECK(((char *) b.buf)[i] == want[i], "formatted text");
        for (unsigned k = 0; k < nn; k++) {
            char *at = (char *) b.buf + num[k].at;
#ifndef VP_REPLAY
            /* printed by the (modelled) C library: compare the number itself */
            int e = -1;
            for (unsigned l = 0; l < 16; l++) if (l < vp_nlog && vp_log[l].at == at) e = (int) l;
            if (e >= 0) {
                CHECK(vp_log[e].digits == num[k].digits, "a number has the documented width");
                CHECK(vp_log[e].value == num[k].value, "a number has the documented value");
                continue;
            }
#endif
            uint64_t sum = 0, pw = 1;
            for (unsigned d = num[k].digits; d-- > 0; pw *= 10) {
                CHECK(at[d] >= '0' && at[d] <= '9', "a number is digits");
                sum += (uint64_t) (uint8_t) (at[d] - '0') * pw;
            }
            CHECK(sum == num[k].value, "a number has the documented value");
        }
        WITNESS("compared");
    } else
        WITNESS("compared");
}
static void any_time(void)
{
    memset(&TM, 0, sizeof TM);
    TM.tm_year = in_choice(207); ASSUME(TM.tm_year >= 70);
    TM.tm_mon = in_choice(12); TM.tm_mday = 1 + in_choice(31); TM.tm_hour = in_choice(24);
    TM.tm_min = in_choice(60); TM.tm_sec = in_choice(61);
}
static void fixed_time(void)
{
    memset(&TM, 0, sizeof TM);
    TM.tm_year = 2011 - 1900; TM.tm_mon = 4; TM.tm_mday = 3; TM.tm_hour = 2; TM.tm_min = 1; TM.tm_sec = 9;
}
#ifndef FLEN
#define FLEN 3
#endif
/* every specifier and width, every value */
void h_ts_spec(void)
{
    static const char *const fmts[] = {
        "%Y", "%m", "%d", "%H", "%M", "%S", "%s", "%%", "%1f", "%2f", "%3f", "%4f", "%5f", "%6f", "%7f", "%8f", "%9f",
        "%Y-%m-%d %H:%M:%S.%3f", "a%%b%Yc", "%", "%q", "x%f", "%0f", "%10f", "%03f", "%009f", "%Y%", "%12", "%4294967297f", "%18446744073709551617f",
        "%42949672961f", "%99999999999999999999f", "", "plain", "%f", "%11f", "%19f", "%256f", "%257f", "%65537f", "%s%9f", "%y", "%D", "%h", "% Y", "%-3f", "%+1f", "%Y%Z" };
    static const size_t count = sizeof fmts / sizeof *fmts;
    CASES();
    for (size_t i = 0; i < count; i++)
        for (unsigned k = 1; k <= (strchr(fmts[i], 's') ? 10 : 1); k++)
            CASE() {
                vp_alloc_install(); any_time();
                uint64_t ts = (uint64_t) in_u32() << 32; uint8_t fr = in_u8();
                ts |= in_bool() ? (uint64_t) fr << 24 : 0xffffff00u | fr;
                if (strchr(fmts[i], 's')) { seconds_of(k); ASSUME(ts >> 32 >= sec_lo && ts >> 32 < sec_hi); }
                compare(fmts[i], ts, i & 1); return;
            }
    CASES_END();
}
/* every format string built from these symbols */
void h_ts_syntax(void)
{
    static const char sym[] = { 0, '%', 'x', 'Y', 'f', '2', '0', '9' };
    char f[8];
    CASES();
    for (unsigned a = 0; a < 8; a++) for (unsigned b = 0; b < 8; b++) for (unsigned c = 0; c < 8; c++) {
        if ((a == 0 && b) || (b == 0 && c)) continue;
        for (unsigned d = 0; d < (FLEN > 3 && c ? 8 : 1); d++)
            CASE() {
                vp_alloc_install(); fixed_time();
                f[0] = sym[a]; f[1] = sym[b]; f[2] = sym[c]; f[3] = sym[d]; f[4] = '\0';
                compare(f, ((uint64_t) in_u8() << 32) | 0x87654321u, false); return;
            }
    }
    CASES_END();
}
/* any byte of text */
static void byte_case(const char *pre, const char *post)
{
    struct cork_buffer b = CORK_BUFFER_INIT();
    char f[12]; unsigned k = 0, at;
    vp_alloc_install(); fixed_time(); cork_error_clear();
    for (; pre[k]; k++) f[k] = pre[k];
    at = k; f[k++] = in_char();
    for (unsigned i = 0; post[i]; i++) f[k++] = post[i];
    f[k] = '\0';
    ASSUME(f[at] != '\0' && f[at] != '%');
    cork_buffer_ensure_size(&b, CAP);
    vp_frozen = true;
    cork_buffer_append(&b, "@", 1);
    int rc = cork_timestamp_format_utc(0, f, &b);
    CHECK(rc == 0 && !cork_error_occurred() && b.size == k + 1, "text is accepted");
    for (unsigned i = 0; i < 12; i++) if (i <= k) CHECK(((char *) b.buf)[i] == (i == 0 ? '@' : f[i - 1]), "text is copied");
    WITNESS("compared");
}
static void other_case(const char *pre, char c, const char *post)
{
    char f[12]; unsigned k = 0;
    vp_alloc_install(); fixed_time(); seconds_of(1);
    for (; pre[k]; k++) f[k] = pre[k];
    f[k++] = c;
    for (unsigned i = 0; post[i]; i++) f[k++] = post[i];
    f[k] = '\0';
    compare(f, ((uint64_t) 7 << 32) | 0x80000000u, false);
}
void h_ts_byte(void)
{
    CASES();
    for (unsigned c = 1; c < 256; c++) {
        CASE() { other_case("%", (char) c, ""); return; }
        if (c % 8 == 2) CASE() { other_case("%Y%3", (char) c, "x"); return; }
    }
    CASE() { byte_case("", ""); return; }
    CASE() { byte_case("x", ""); return; }
    CASE() { byte_case("", "x"); return; }
    CASES_END();
}
#ifndef DENOM
#define DENOM 10ULL
#endif
/* a fraction is the nearest one below a second */
void h_ts_frac(void)
{
    uint32_t g = in_u32();
    uint64_t r = cork_timestamp_gsec_to_units(((uint64_t) in_u32() << 32) | g, DENOM);
    CHECK(r < DENOM, "a fractional part is less than one second");
    uint64_t lhs = r << 32, rhs = (uint64_t) g * DENOM, slack = ((uint64_t) 1 << 31) + DENOM;
    CHECK(lhs <= rhs + slack, "not more than the nearest unit");
    CHECK(rhs <= lhs + slack || r == DENOM - 1, "not less than the nearest unit");
    WITNESS("done");
}
