/* C26 the error condition. */
#include "vp_alloc.h"
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include "libcork/core/error.h"
#include "libcork/os/process.h"
#define MAXM 240
static const char *const TEXT[] = { "", "a", "bc 100%", "some twenty-one letters" };
static char M[MAXM]; static size_t n; static bool set; static uint32_t code;
static cork_cleanup_function at_exit_;
void STUB(cork_cleanup_at_exit_named)(const char *name, int prio, cork_cleanup_function f)
{ CHECK(at_exit_ == NULL, "the errors of the process are cleaned up once"); at_exit_ = f; }
static const char *ETEXT[] = { "zero", "no such thing", "a much longer description" };
char *STUB(strerror)(int e) { return (char *) ETEXT[e % 3]; }

static void put(const char *s) { for (; *s; s++) M[n++] = *s; }
static void model_set(uint32_t c) { set = true; code = c; n = 0; }
static void model_prefix(const char *a, const char *b)
{
    char t[MAXM]; size_t k = n;
    for (size_t i = 0; i < k; i++) t[i] = M[i];
    n = 0; put(a); put(b);
    for (size_t i = 0; i < k; i++) M[n++] = t[i];
}
static void agree(void)
{
    CHECK(cork_error_occurred() == set, "an error has occurred since the last clear");
    CHECK(cork_error_code() == (set ? code : CORK_ERROR_NONE), "the code of the last error");
    if (!set) return;
    const char *m = cork_error_message();
    CHECK(m != NULL, "an error has a message");
    for (size_t i = 0; i < n; i++) CHECK(m[i] == M[i], "the message of the last error with its prefixes");
    CHECK(m[n] == '\0', "the message of the last error with its prefixes");
}
static void vset(uint32_t c, const char *f, ...) { va_list a; va_start(a, f); cork_error_set_vprintf(c, f, a); va_end(a); }
static void vprefix(const char *f, ...) { va_list a; va_start(a, f); cork_error_prefix_vprintf(f, a); va_end(a); }

static void op(unsigned o, unsigned t)
{
    uint32_t c = in_u32(); ASSUME(c != CORK_ERROR_NONE);
    const char *s = TEXT[t]; char old[MAXM];
    for (size_t i = 0; i < n; i++) old[i] = M[i];
    old[n] = 0;
    switch (o) {
    case 0: cork_error_set_string(c, s); model_set(c); put(s); break;
    case 1: cork_error_set_printf(c, "%s: %s%%", s, "42"); model_set(c); put(s); put(": 42%"); break;
    case 2: vset(c, "(%s)", s); model_set(c); put("("); put(s); put(")"); break;
    case 3: cork_error_prefix_string(s); if (set) model_prefix(s, ""); break;
    case 4: cork_error_prefix_printf("%s: ", s); if (set) model_prefix(s, ": "); break;
    case 5: vprefix("%s-", s); if (set) model_prefix(s, "-"); break;
    case 6: cork_error_clear(); set = false; break;
    case 7: { int e = (int) t + 5; cork_system_error_set_explicit(e); model_set(e); put(ETEXT[e % 3]); break; }
    case 8: { int e = (int) t + 7; errno = e; cork_system_error_set(); model_set(e); put(ETEXT[e % 3]); break; }
    case 9: cork_unknown_error(); model_set(CORK_UNKNOWN_ERROR); put("Unknown error in "); put(__func__); break;
    /* the current message as part of the new one */
    case 10: if (!set) { cork_error_clear(); break; }
             cork_error_set_printf(c, "%s, %s", s, cork_error_message()); model_set(c); put(s); put(", "); put(old); break;
    case 11: if (!set) { cork_error_clear(); break; }
             cork_error_set_string(c, cork_error_message()); code = c; break;
    case 12: if (!set) { cork_error_clear(); break; }
             cork_error_prefix_printf("%s%s", s, cork_error_message()); model_prefix(s, old); break;
    default: if (!set) { cork_error_clear(); break; }
             cork_error_prefix_string(cork_error_message()); model_prefix(old, ""); break;
    }
    agree();
}
void h_errors(void)
{
    unsigned z = 0;
    CASES();
    for (unsigned at = 0; at < 56; at++)
        for (unsigned b = 0; b < 14; b++)
            for (unsigned d = 0; d < THIRD; d++) {
                unsigned a = at / 4;
                /* these do not use the text */
                if (at % 4 && (a == 6 || a == 9 || a == 11 || a == 13)) continue;
                unsigned t = z++;
                CASE() {
                    cork_allocator = &vp_allocator; vp_nblk = vp_live = 0; at_exit_ = NULL; n = 0; set = false;
                    if (t & 1) agree();
                    op(a, at % 4); op(b, t / 3 % 4);
                    if (THIRD > 1) op(d, t / 5 % 4); else op(t % 14, t / 7 % 4);
                    CHECK(at_exit_ != NULL, "the errors are cleaned up at exit");
                    at_exit_();
                    VP_NO_LEAK();
                    WITNESS("case");
                    return;
                }
            }
    CASES_END();
}
