/* Solver-side model of the printf family: the conversions libcork uses
 * (%s %c %d %i %u %x %X %% with flags 0 and -, width, precision, '*', and the
 * h/hh/l/ll/z length modifiers).  A number's digits are introduced as unknowns
 * constrained by  sum(d_i * base^i) == value,  which is exact and far cheaper
 * for the solver than repeated division.  Witness replays run glibc's printf on
 * the same inputs, so a mismatch of this model shows up as a replay failure. */
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
uint8_t nondet_vp_digit(void);
typedef unsigned __int128 vp_u128;

/* CBMC does not apply the default argument promotions to variadic arguments, so
 * an integer argument is read at its own width (narrow ones as unsigned). */
static inline uint64_t vp_fetch(void *p, size_t sz) {
    if (sz == 1) return *(uint8_t *) p;
    if (sz == 2) return *(uint16_t *) p;
    if (sz == 4) return *(uint32_t *) p;
    return *(uint64_t *) p;
}
#define VP_INT(ap) ({ void *p_ = *(void **) (ap); (void) va_arg(ap, char); \
                      vp_fetch(p_, __CPROVER_OBJECT_SIZE(p_)); })

#ifdef VP_PRINTF_LOG
struct vp_logged { char *at; unsigned digits; uint64_t value; };
struct vp_logged vp_log[16]; unsigned vp_nlog;
#endif
struct vp_out { char *s; size_t n; size_t pos; };
static void vp_putc(struct vp_out *o, char c) {
    if (o->n != 0 && o->pos < o->n - 1) o->s[o->pos] = c;
    o->pos++;
}

/* digits most significant first at the end of buf[20]; returns count */
static unsigned vp_dec32(uint32_t v, char *buf) {
    uint64_t sum = 0, pw = 1; unsigned cnt = 1;
    for (unsigned i = 0; i < 10; i++) {
        uint8_t d = nondet_vp_digit();
        __CPROVER_assume(d < 10);
        if (i > 0 && v >= pw) cnt = i + 1;
        if (i > 0 && v < pw) __CPROVER_assume(d == 0);
        sum += d * pw; pw *= 10;
        buf[19 - i] = (char) ('0' + d);
    }
    __CPROVER_assume(sum == v);
    return cnt;
}
static unsigned vp_dec64(uint64_t v, char *buf) {
    vp_u128 sum = 0, pw = 1; unsigned cnt = 1;
    for (unsigned i = 0; i < 20; i++) {
        uint8_t d = nondet_vp_digit();
        __CPROVER_assume(d < 10);
        if (i > 0 && v >= pw) cnt = i + 1;
        if (i > 0 && v < pw) __CPROVER_assume(d == 0);
        sum += d * pw; pw *= 10;
        buf[19 - i] = (char) ('0' + d);
    }
    __CPROVER_assume(sum == v);
    return cnt;
}
static unsigned vp_hex(uint64_t v, unsigned max, bool up, char *buf) {
    unsigned cnt = 1;
    for (unsigned i = 0; i < max; i++) {
        unsigned d = (unsigned) (v >> (4 * i)) & 15;
        buf[19 - i] = (char) (d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10);
        if (d != 0) cnt = i + 1;
    }
    return cnt;
}

static void vp_pad(struct vp_out *o, int k, char c, int max) {
    for (int i = 0; i < max; i++) { if (i >= k) break; vp_putc(o, c); }
}

#ifndef VP_MAXPAD
#define VP_MAXPAD 48
#endif
#ifndef VP_MAXSTR
#define VP_MAXSTR 64
#endif

#ifdef VP_PRINTF_WRAPPED
int vsnprintf(char *s, size_t n, const char *f, va_list ap);
int vp_vsnprintf(char *s, size_t n, const char *f, va_list ap) {
#else
int vsnprintf(char *s, size_t n, const char *f, va_list ap) {
#endif
    struct vp_out o = { s, n, 0 };
    for (size_t i = 0; f[i] != '\0'; i++) {
        if (f[i] != '%') { vp_putc(&o, f[i]); continue; }
        i++;
        bool zero = false, left = false;
        int width = 0, prec = -1, longs = 0, shorts = 0; bool z = false;
        for (;; i++) {
            if (f[i] == '0') zero = true;
            else if (f[i] == '-') left = true;
            else break;
        }
        if (f[i] == '*') { width = (int) VP_INT(ap); i++; if (width < 0) { left = true; width = -width; } }
        else while (f[i] >= '0' && f[i] <= '9') { width = width * 10 + (f[i] - '0'); i++; }
        if (f[i] == '.') {
            i++; prec = 0;
            if (f[i] == '*') { prec = (int) VP_INT(ap); i++; }
            else while (f[i] >= '0' && f[i] <= '9') { prec = prec * 10 + (f[i] - '0'); i++; }
        }
        for (;; i++) {
            if (f[i] == 'l') longs++;
            else if (f[i] == 'h') shorts++;
            else if (f[i] == 'z') z = true;
            else break;
        }
        char c = f[i];
        if (c == '%') { vp_putc(&o, '%'); continue; }
        if (c == 'c') { vp_putc(&o, (char) (int) VP_INT(ap)); continue; }
        if (c == 's') {
            const char *str = va_arg(ap, const char *);
            size_t len = 0;
            if (str == NULL) str = "(null)";
#ifdef VP_STR_NONUL
            /* harness promises (and the solver checks) no NUL before the precision */
            if (prec >= 0) for (; len < (size_t) prec; len++) __CPROVER_assert(str[len] != '\0', "printf model: no NUL within the precision");
            else
#endif
            while ((prec < 0 || len < (size_t) prec) && str[len] != '\0') len++;
            if (!left) vp_pad(&o, width - (int) len, ' ', width);
            for (size_t k = 0; k < len; k++) vp_putc(&o, str[k]);
            if (left) vp_pad(&o, width - (int) len, ' ', width);
            continue;
        }
        char buf[20]; unsigned cnt = 0; bool neg = false; int max = 0;
#ifdef VP_PRINTF_LOG
        /* decimals are not spelled out: '#' marks as many digits as the number
         * takes, and the harness compares the logged value itself */
        if (!left && (c == 'd' || c == 'u')) {
            uint64_t v = longs || z ? VP_INT(ap) : (uint32_t) VP_INT(ap), pw = 10;
            unsigned k = 1;
            __CPROVER_assert(c == 'u' || (int32_t) v >= 0 || longs, "printf model: numbers are not negative");
            for (; k < (width > 10 ? 20 : 10); k++, pw *= 10) if (v < pw) break;
            if (zero) {
                __CPROVER_assert(width > 0 && k <= (unsigned) width, "printf model: zero-padded number fits its width");
                k = (unsigned) width;
            } else __CPROVER_assert(width == 0, "printf model: width without zero padding");
            __CPROVER_assert(vp_nlog < 16, "printf model: log suffices");
            vp_log[vp_nlog].at = s + o.pos; vp_log[vp_nlog].digits = k; vp_log[vp_nlog].value = v; vp_nlog++;
            for (int i = 0; i < (zero ? width : 10); i++) if (zero || (unsigned) i < k) vp_putc(&o, '#');
            continue;
        }
#endif
        if (c == 'd' || c == 'i' || c == 'u') {
            if (longs || z) {
                uint64_t v = VP_INT(ap);
                if (c != 'u' && (int64_t) v < 0) { neg = true; v = 0 - v; }
                cnt = vp_dec64(v, buf); max = 20;
            } else {
                uint32_t v = VP_INT(ap);
                if (shorts == 1) v = c == 'u' ? (uint16_t) v : (uint32_t) (int16_t) v;
                if (shorts == 2) v = c == 'u' ? (uint8_t) v : (uint32_t) (int8_t) v;
                if (c != 'u' && (int32_t) v < 0) { neg = true; v = 0 - v; }
                cnt = vp_dec32(v, buf); max = 10;
            }
        } else if (c == 'x' || c == 'X') {
            uint64_t v;
            if (longs || z) { v = VP_INT(ap); max = 16; }
            else { v = VP_INT(ap); max = 8;
                   if (shorts == 1) { v = (uint16_t) v; max = 4; }
                   if (shorts == 2) { v = (uint8_t) v; max = 2; } }
            cnt = vp_hex(v, (unsigned) max, c == 'X', buf);
        } else {
            __CPROVER_assert(0, "printf model: conversion outside the modelled set");
        }
        int total = (int) cnt + (neg ? 1 : 0);
        if (!left && !zero) vp_pad(&o, width - total, ' ', width);
        if (neg) vp_putc(&o, '-');
        if (!left && zero) vp_pad(&o, width - total, '0', width);
        for (int k = 0; k < max; k++)
            if ((unsigned) (max - k) <= cnt) vp_putc(&o, buf[20 - max + k]);
        if (left) vp_pad(&o, width - total, ' ', width);
    }
    if (n != 0) s[o.pos < n - 1 ? o.pos : n - 1] = '\0';
    return (int) o.pos;
}
int snprintf(char *s, size_t n, const char *f, ...) {
    va_list ap; va_start(ap, f);
    int r = vsnprintf(s, n, f, ap);
    va_end(ap);
    return r;
}
int sprintf(char *s, const char *f, ...) {
    va_list ap; va_start(ap, f);
    int r = vsnprintf(s, (size_t) 1 << 30, f, ap);
    va_end(ap);
    return r;
}
