/* C16 buffer contents, C17 formatted appends */
#include "vp_alloc.h"
#include <stdarg.h>
#include <stdio.h>
#include "libcork/ds/buffer.h"
#include "libcork/ds/managed-buffer.h"
#include "libcork/ds/slice.h"
#include "libcork/ds/stream.h"
#include "libcork/core/error.h"
#define MAXN 160
#ifndef ALO
#define ALO 0
#define AHI 2
#define LHI 4
#define RATIO 1
#endif
static struct cork_buffer B;
static char M[MAXN]; static size_t n; static bool held;

static void check_buf(struct cork_buffer *b)
{
    CHECK(b->size == n, "size is the number of bytes written");
    if (b->buf == NULL) { CHECK(n == 0, "only an empty buffer has no storage"); return; }
    for (size_t i = 0; i < n; i++) {
        CHECK(cork_buffer_char(b, i) == M[i], "contents are the bytes written");
        CHECK(cork_buffer_byte(b, i) == (uint8_t) M[i], "contents are the bytes written");
    }
    /* storage that was only reserved has never held anything */
    if (held) CHECK(((char *) b->buf)[n] == '\0', "NUL terminated");
}
/* A buffer whose storage is alloc bytes (0: none yet) and holds size bytes. */
static void state(size_t alloc, size_t size)
{
    char tmp[32];
    cork_buffer_init(&B); n = 0; held = alloc != 0;
    if (alloc == 0) return;
    for (size_t i = 0; i + 1 < alloc; i++) M[i] = tmp[i] = in_char();
    cork_buffer_append(&B, tmp, alloc - 1);
    n = alloc - 1; check_buf(&B);
    cork_buffer_truncate(&B, size); n = size;
    check_buf(&B);
}
static void put(const char *p, size_t len) { for (size_t i = 0; i < len; i++) M[n + i] = p[i]; n += len; }

static void op_case(int op, size_t len)
{
    char *src = vp_exact(len + 1);            /* exact, so reading past it is caught */
    struct cork_buffer o;
    for (size_t i = 0; i < len; i++) src[i] = op == 2 || op == 3 ? (char) (0xfd + 3 * i) | 1 : in_char();
    src[len] = 0;
    if (op < 4 || op > 6) held = true;
    char *exact = vp_exact(len);
    for (size_t i = 0; i < len; i++) exact[i] = src[i];
    switch (op) {
    case 0: cork_buffer_set(&B, exact, len); n = 0; put(src, len); break;
    case 1: cork_buffer_append(&B, exact, len); put(src, len); break;
    case 2: cork_buffer_set_string(&B, src); n = 0; put(src, len); break;
    case 3: cork_buffer_append_string(&B, src); put(src, len); break;
    case 4: cork_buffer_truncate(&B, len); if (len < n) n = len; break;
    case 5: cork_buffer_clear(&B); n = 0; break;
    case 6: cork_buffer_ensure_size(&B, len);
        CHECK(B.allocated_size >= len, "reserved space is there"); break;
    case 7: case 8:
        cork_buffer_init(&o);
        cork_buffer_set(&o, exact, len);
        if (op == 7) { cork_buffer_copy(&B, &o); n = 0; } else cork_buffer_append_copy(&B, &o);
        put(src, len);
        cork_buffer_done(&o);
        break;
    case 9: cork_buffer_append_indent(&B, len); for (size_t i = 0; i < len; i++) M[n++] = ' '; break;
    case 10: {
        struct cork_stream_consumer *c = cork_buffer_to_stream_consumer(&B);
        size_t k = len / 2;
        CHECK(cork_stream_consumer_data(c, exact, k, true) == 0, "consumer accepts data");
        CHECK(cork_stream_consumer_data(c, exact + k, len - k, false) == 0, "consumer accepts data");
        CHECK(cork_stream_consumer_eof(c) == 0, "consumer accepts end of file");
        cork_stream_consumer_free(c);
        put(src, len);
        break; }
    case 11: cork_buffer_set_literal(&B, "ab\"\0x"); n = 0; put("ab\"\0x", 5); break;
    case 12: cork_buffer_append_literal(&B, "ab\"\0x"); put("ab\"\0x", 5); break;
    }
    vp_exact_free(src, len + 1); vp_exact_free(exact, len);
    check_buf(&B);
}
#ifndef OPLO
#define OPLO 0
#define OPHI 13
#endif
/* From every storage/size state, every operation with every length, then one
 * more append. */
void h_buffer_ops(void)
{
    CASES();
    for (size_t a = ALO; a <= AHI; a++) for (size_t s = 0; s < (a ? a : 1); s++)
        for (int op = OPLO; op < OPHI; op++) for (size_t len = 0; len <= ((op == 5 || op > 10) ? 0 : LHI); len++)
            CASE() {
                vp_alloc_install();
                state(a, s);
                op_case(op, len);
                /* a dropped tail stays dropped, a kept one stays kept */
                char c = in_char();
                cork_buffer_append(&B, &c, 1); put(&c, 1); held = true;
                check_buf(&B);
                cork_buffer_done(&B);
                VP_NO_LEAK();
                cork_buffer_done(&B);   /* harmless */
                WITNESS("case");
                return;
            }
    CASES_END();
}

static void equal_case(size_t la, size_t lb, bool dirty)
{
    struct cork_buffer *p = cork_buffer_new(); struct cork_buffer q = CORK_BUFFER_INIT();
    char x[8], y[8]; bool same = la == lb;
    for (size_t i = 0; i < la; i++) x[i] = in_char();
    for (size_t i = 0; i < lb; i++) y[i] = in_char();
    for (size_t i = 0; i < la && i < lb; i++) if (x[i] != y[i]) same = false;
    if (dirty) { cork_buffer_append(p, "xyzzyplugh", 10); cork_buffer_clear(p); }
    if (la || dirty) cork_buffer_append(p, x, la);
    if (lb || dirty) cork_buffer_append(&q, y, lb);
    CHECK(cork_buffer_equal(p, &q) == same, "equal exactly when the contents are");
    CHECK(cork_buffer_equal(&q, p) == same, "equality is symmetric");
    CHECK(cork_buffer_equal(p, p), "equality is reflexive");
    cork_buffer_free(p); cork_buffer_done(&q);
    VP_NO_LEAK();
    WITNESS("case");
}
void h_buffer_equal(void)
{
    CASES();
    for (size_t a = 0; a <= 4; a++) for (size_t b = 0; b <= 4; b++) for (int d = 0; d < 2; d++)
        CASE() { vp_alloc_install(); equal_case(a, b, d); return; }
    CASES_END();
}

/* handing the contents over to a managed buffer or a slice */
static void handover_case(size_t len, bool slice)
{
    struct cork_buffer *b = cork_buffer_new();
    struct cork_slice sl; struct cork_managed_buffer *m;
    char x[8];
    for (size_t i = 0; i < len; i++) x[i] = in_char();
    cork_buffer_append(b, x, len);
    const char *p; size_t sz;
    if (slice) {
        CHECK(cork_buffer_to_slice(b, &sl) == 0, "slicing a buffer succeeds");
        p = sl.buf; sz = sl.size;
    } else {
        m = cork_buffer_to_managed_buffer(b);
        p = m->buf; sz = m->size;
    }
    CHECK(sz == len, "size handed over");
    for (size_t i = 0; i < len; i++) CHECK(p[i] == x[i], "contents handed over");
    if (slice) cork_slice_finish(&sl); else cork_managed_buffer_unref(m);
    VP_NO_LEAK();
    WITNESS("case");
}
void h_buffer_handover(void)
{
    CASES();
    for (size_t a = 0; a <= 5; a++) for (int d = 0; d < 2; d++)
        CASE() { vp_alloc_install(); handover_case(a, d); return; }
    CASES_END();
}

/*---------------------------------------------------------------- C17 */
static bool fail_now; static int failed;
#ifdef VP_REPLAY
int REAL(vsnprintf)(char *s, size_t k, const char *f, va_list ap);
#else
int vp_vsnprintf(char *s, size_t k, const char *f, va_list ap);
#endif
int STUB(vsnprintf)(char *s, size_t k, const char *f, va_list ap)
{
    if (fail_now) { failed++; if (k > 0) { s[0] = '?'; } if (k > 1) { s[1] = '\0'; } return -1; }
#ifdef VP_REPLAY
    return REAL(vsnprintf)(s, k, f, ap);
#else
    return vp_vsnprintf(s, k, f, ap);
#endif
}
static void printf_case(int op, size_t len)
{
    char *src = vp_exact(len + 1); char d[12]; int k = 0;
    for (size_t i = 0; i < len; i++) src[i] = (char) (0xfd + 3 * i) | 1;
    src[len] = 0;
    unsigned v = len % 3 == 0 ? 7 : len % 3 == 1 ? 48 : 255;
    d[k++] = "0123456789abcdef"[v >> 4]; d[k++] = "0123456789abcdef"[v & 15];
    fail_now = op >= 3 && op <= 5; failed = 0;
    if (!fail_now) held = true;
    switch (op) {
    case 0: cork_buffer_append_printf(&B, "%s", src); put(src, len); break;
    case 1: cork_buffer_printf(&B, "%s", src); n = 0; put(src, len); break;
    case 2: cork_buffer_append_printf(&B, "%s-%02x", src, v); put(src, len); put("-", 1); put(d, k); break;
    case 3: cork_buffer_append_printf(&B, "%s", src); break;
    case 4: cork_buffer_append_printf(&B, "%s%x", src, v); break;
    case 5: cork_buffer_printf(&B, "%s", src); n = 0; break;
    case 6: cork_buffer_append_printf(&B, "x"); put("x", 1); break;
    case 7: cork_buffer_append_printf(&B, "%s", ""); break;
    }
    if (fail_now) CHECK(failed > 0, "the formatter was called");
    fail_now = false;
    if (B.buf != NULL || op < 3 || op > 5) check_buf(&B); else CHECK(B.size == 0, "nothing added");
    vp_exact_free(src, len + 1);
}
void h_buffer_printf(void)
{
    CASES();
    for (size_t a = ALO; a <= AHI; a++) for (size_t s = 0; s < (a ? a : 1); s++)
        for (int op = 0; op < 8; op++) for (size_t len = 0; len <= (op >= 3 ? 1 : LHI); len++)
            CASE() {
                vp_alloc_install();
                state(a, s);
                printf_case(op, len);
                char c = in_char();
                cork_buffer_append(&B, &c, 1); put(&c, 1); held = true;
                check_buf(&B);
                cork_buffer_done(&B);
                VP_NO_LEAK();
                WITNESS("case");
                return;
            }
    CASES_END();
}

/* C string form: one line of printable ASCII between double quotes, from which
 * the escapes (letter escapes and exactly two hex digits) give the bytes back */
#ifndef SLEN
#define SLEN 2
#endif
static int hexval(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
void h_buffer_c_string(void)
{
    char *src = vp_exact(SLEN);
    vp_alloc_install();
    in_bytes(src, SLEN);
    cork_buffer_init(&B);
    cork_buffer_append(&B, "p", 1);
    cork_buffer_ensure_size(&B, 8 * SLEN + 32);
    vp_frozen = true;
    cork_buffer_append_c_string(&B, src, SLEN);
    const char *t = B.buf; size_t i = 2;
    CHECK(B.size >= 3 && t[0] == 'p' && t[1] == '"', "appended, opening quote");
    for (int k = 0; k < SLEN; k++) {
        unsigned char c = src[k];
        CHECK(i < B.size, "all bytes present");
        if (t[i] == '\\') {
            CHECK(i + 1 < B.size, "escape complete");
            char e = t[i + 1]; i += 2;
            int want = e == '"' ? '"' : e == '\\' ? '\\' : e == 'f' ? '\f' : e == 'n' ? '\n' : e == 'r' ? '\r' : e == 't' ? '\t' : e == 'v' ? '\v' : -1;
            if (e == 'x') {
                CHECK(i + 1 < B.size, "two hex digits");
                int h = hexval(t[i]), l = hexval(t[i + 1]);
                CHECK(h >= 0 && l >= 0, "two hex digits");
                want = h * 16 + l; i += 2;
                CHECK(!(c >= 0x20 && c <= 0x7e) && c != '\n' && c != '\t' && c != '\f' && c != '\r' && c != '\v', "hex escapes only where no letter escape exists");
            }
            CHECK(want == c, "escape denotes the byte");
        } else {
            CHECK(t[i] >= 0x20 && t[i] <= 0x7e && t[i] != '"', "only printable characters unescaped");
            CHECK((unsigned char) t[i] == c, "byte stands for itself");
            i++;
        }
    }
    CHECK(i + 1 == B.size && t[i] == '"' && t[i + 1] == '\0', "closing quote and end");
    WITNESS("done");
    vp_exact_free(src, SLEN);
    cork_buffer_done(&B);
    VP_NO_LEAK();
}

#define printable(c) ((c) >= 0x20 && (c) <= 0x7e)
static size_t expect_hex(char *out, size_t indent, const uint8_t *s, size_t len)
{
    size_t o = 0; const char *hd = "0123456789abcdef";
    for (size_t r = 0; r < len; r += 16) {
        if (r) { out[o++] = '\n'; for (size_t k = 0; k < indent; k++) out[o++] = ' '; }
        for (size_t k = 0; k < 16; k++) {
            if (r + k < len) { out[o++] = hd[s[r + k] >> 4]; out[o++] = hd[s[r + k] & 15]; }
            else { out[o++] = ' '; out[o++] = ' '; }
            out[o++] = ' ';
        }
        out[o++] = ' '; out[o++] = '|';
        for (size_t k = 0; k < 16 && r + k < len; k++) out[o++] = printable(s[r + k]) ? (char) s[r + k] : '.';
        out[o++] = '|';
    }
    return o;
}
static char X[512];
static void expect(size_t k, size_t at)
{
    CHECK(B.size == at + k, "length of the dump");
    for (size_t i = 0; i < k; i++) CHECK(((char *) B.buf)[at + i] == X[i], "text of the dump");
    CHECK(((char *) B.buf)[at + k] == '\0', "terminated");
}
static void hex_case(size_t len, size_t indent)
{
    uint8_t *s = vp_exact(len);
    in_bytes(s, len);
    cork_buffer_append(&B, "z", 1);
    cork_buffer_append_hex_dump(&B, indent, (char *) s, len);
    expect(expect_hex(X, indent, s, len), 1);
    vp_exact_free(s, len);
}
static void start(void) { vp_alloc_install(); cork_buffer_init(&B); }
static void finish(void) { cork_buffer_done(&B); VP_NO_LEAK(); WITNESS("case"); }
void h_buffer_hex(void)
{
    static const uint8_t lens[] = { 0, 1, 2, 15, 16, 17, 31, 32, 33, 48, 49 };
    CASES();
    for (unsigned k = 0; k < sizeof lens; k++) for (size_t ind = 0; ind <= 4; ind += 2)
        if (lens[k] < 20 || ind < 4)
            CASE() { start(); hex_case(lens[k], ind); finish(); return; }
    CASES_END();
}
/* the binary form: hex when any byte is unprintable, multiline when there is a
 * newline, otherwise the text itself */
#ifndef BLEN
#define BLEN 3
#endif
void h_buffer_binary(void)
{
    uint8_t *s = vp_exact(BLEN); bool bin = false, nl = false; char tmp[BLEN + 1]; size_t o = 0;
    size_t indent = 2;
    start();
    unsigned shape = in_choice(3);      /* 0 plain, 1 newlines at NLMASK, 2 binary */
    for (int i = 0; i < BLEN; i++) {
        s[i] = in_u8();
        if (shape < 2) ASSUME((s[i] == '\n') == (shape == 1 && (((NLMASK) >> i) & 1)));
        if (s[i] == '\n') nl = true;
        if (!printable(s[i]) && !(s[i] >= 9 && s[i] <= 13)) bin = true;
    }
    ASSUME((shape == 2) == bin);
    cork_buffer_append(&B, "q", 1);
    cork_buffer_ensure_size(&B, 256);
    vp_frozen = true;
    if (shape == 0) {
        cork_buffer_append_binary(&B, indent, (char *) s, BLEN);
        for (int i = 0; i < BLEN; i++) X[o++] = s[i];
        expect(o, 1);
        WITNESS("plain");
    } else if (shape == 1) {
        cork_buffer_append_binary(&B, indent, (char *) s, BLEN);
        const char *h = "(multiline)\n  ";
        if (NLMASK) {
            for (; *h; h++) X[o++] = *h;
            for (int i = 0; i < BLEN; i++) { X[o++] = s[i]; if (((NLMASK) >> i) & 1) for (size_t k = 0; k < indent; k++) X[o++] = ' '; }
            expect(o, 1);
            size_t skip = 14;
            cork_buffer_clear(&B);
            cork_buffer_append_multiline(&B, indent, (char *) s, BLEN);
            for (size_t k = 0; k + skip < o; k++) X[k] = X[k + skip];
            expect(o - skip, 0);
        }
        WITNESS("multiline");
    } else {
        cork_buffer_append_binary(&B, indent, (char *) s, BLEN);
        const char *h = "(hex)\n  ";
        for (; *h; h++) X[o++] = *h;
        o += expect_hex(X + o, indent, s, BLEN);
        expect(o, 1);
        WITNESS("hex");
    }
    vp_exact_free(s, BLEN);
    cork_buffer_done(&B); VP_NO_LEAK();
}
