/* C20 stream producers and consumers.  The file behind a descriptor or FILE is
 * a byte string delivered (or accepted) in pieces chosen by the solver among
 * every script of partial transfers, interruptions and errors. */
#include "vp_alloc.h"
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <sys/types.h>
#include "libcork/core/error.h"
#include "libcork/ds/stream.h"
#ifndef SCRIPT
#define SCRIPT 3
#endif
/* script steps: 1, 2: transfer that many bytes; EINT: interrupted; EERR: error;
 * PERR: a stdio transfer of one byte that hits an error; then end of file */
enum { S1 = 1, S2 = 2, EINT = 3, EERR = 4, NSTEP = 5 };
static uint8_t script[SCRIPT + 1]; static unsigned pc; static uint8_t content[8]; static size_t at;
static int opens, closes, open_flags; static const char *open_path; static bool open_intr, open_fail, close_fail, fd_open, at_eof;
#define FD 7
#define ERR_IO EIO

static void restart(void)
{
    vp_alloc_install(); cork_error_clear();
    pc = 0; at = 0; opens = closes = 0; at_eof = false; open_intr = open_fail = close_fail = false; fd_open = true;
    for (unsigned i = 0; i < 8; i++) content[i] = in_u8();
}
static int next_step(void) { return pc < SCRIPT ? script[pc++] : 0; }

int STUB(open)(const char *path, int flags, ...)
{
    open_path = path; open_flags = flags;
    if (open_intr) { open_intr = false; errno = EINTR; return -1; }
    if (open_fail) { errno = ENOENT; return -1; }
    opens++; fd_open = true;
    return FD;
}
int STUB(close)(int fd)
{
    CHECK(fd == FD && fd_open, "only the open descriptor is closed, once");
    fd_open = false; closes++;
    if (close_fail) { errno = ERR_IO; return -1; }
    return 0;
}
ssize_t STUB(read)(int fd, void *buf, size_t n)
{
    CHECK(fd == FD && fd_open, "reads the descriptor it was given");
    CHECK(n > 2, "buffer of a useful size");
    switch (next_step()) {
    case S1: ((uint8_t *) buf)[0] = content[at++]; return 1;
    case S2: ((uint8_t *) buf)[0] = content[at++]; ((uint8_t *) buf)[1] = content[at++]; return 2;
    case EINT: errno = EINTR; return -1;
    case EERR: errno = ERR_IO; return -1;
    }
    return 0;
}
#define FILEP ((FILE *) content)
size_t STUB(fread)(void *buf, size_t sz, size_t n, FILE *fp)
{
    CHECK(fp == FILEP && sz == 1 && n > 2, "reads the file it was given");
    switch (next_step()) {
    case S1: ((uint8_t *) buf)[0] = content[at++]; return 1;
    case S2: ((uint8_t *) buf)[0] = content[at++]; ((uint8_t *) buf)[1] = content[at++]; return 2;
    case EINT: errno = EINTR; return 0;
    case EERR: errno = ERR_IO; return 0;
    }
    at_eof = true;
    return 0;
}
int STUB(feof)(FILE *fp) { CHECK(fp == FILEP, "asks about the file it was given"); return at_eof; }
static uint8_t out[12]; static size_t nout;
ssize_t STUB(write)(int fd, const void *buf, size_t n)
{
    size_t k = 0;
    CHECK(fd == FD && fd_open, "writes the descriptor it was given");
    CHECK(n > 0 && n <= 4, "writes what is left");
    switch (next_step()) {
    case S1: k = 1; break;
    case S2: k = n < 2 ? n : 2; break;
    case EINT: errno = EINTR; return -1;
    case EERR: errno = ERR_IO; return -1;
    default: k = n;
    }
    for (size_t i = 0; i < k; i++) { CHECK(nout < 12, "no more than was given"); out[nout++] = ((const uint8_t *) buf)[i]; }
    return k;
}
size_t STUB(fwrite)(const void *buf, size_t sz, size_t n, FILE *fp)
{
    size_t k = n;
    CHECK(fp == FILEP && sz == 1, "writes the file it was given");
    switch (next_step()) { case S1: k = n < 1 ? n : 1; break; case EERR: k = 0; break; }
    if (k < n) errno = ERR_IO;
    for (size_t i = 0; i < k; i++) { CHECK(nout < 12, "no more than was given"); out[nout++] = ((const uint8_t *) buf)[i]; }
    return k;
}

/* a consumer that notes what it gets */
struct sink { struct cork_stream_consumer parent; uint8_t got[12]; size_t n; unsigned chunks, eofs; int fail_chunk; bool fail_eof; };
static struct sink K;
static int sink_data(struct cork_stream_consumer *c, const void *buf, size_t n, bool first)
{
    CHECK(c == &K.parent && K.eofs == 0, "data before the end");
    CHECK(first == (K.chunks == 0), "exactly the first chunk is marked");
    CHECK(n > 0 && n <= 2, "chunks of the size read");
    for (size_t i = 0; i < n; i++) K.got[K.n++] = ((const uint8_t *) buf)[i];
    if ((int) K.chunks++ == K.fail_chunk) { errno = EINTR; cork_error_set_printf(77, "x"); return -1; }
    return 0;
}
static int sink_eof(struct cork_stream_consumer *c) { (void) c; K.eofs++; if (K.fail_eof) { cork_error_set_printf(78, "x"); return -1; } return 0; }
static void sink_free(struct cork_stream_consumer *c) { (void) c; CHECK(0, "a producer does not free its consumer"); }

/* kind: 0 fd, 1 FILE, 2 path */
static void produce(unsigned kind, int fail_chunk, bool fail_eof, unsigned path_opts)
{
    int rc;
    restart();
    K.parent.data = sink_data; K.parent.eof = sink_eof; K.parent.free = sink_free;
    K.n = 0; K.chunks = K.eofs = 0; K.fail_chunk = fail_chunk; K.fail_eof = fail_eof;
    errno = EINTR;      /* left over from earlier */
    if (kind == 0) rc = cork_consume_fd(&K.parent, FD);
    else if (kind == 1) rc = cork_consume_file(&K.parent, FILEP);
    else {
        fd_open = false; open_intr = path_opts & 1; open_fail = (path_opts & 6) == 2; close_fail = (path_opts & 6) == 4;
        rc = cork_consume_file_from_path(&K.parent, "the/path", 0x1234);
        CHECK(open_flags == 0x1234 && strcmp(open_path, "the/path") == 0, "opened as asked");
    }
    /* what should have happened */
    size_t want = 0; unsigned chunks = 0; uint32_t err = 0; bool ended = false;
    if (kind == 2 && (path_opts & 6) == 2) { err = ENOENT; ended = true; }
    for (unsigned i = 0; i < SCRIPT && !ended && script[i] != 0; i++) {
        if (script[i] == EERR) { err = ERR_IO; ended = true; }
        else if (script[i] != EINT) {
            want += script[i];
            if ((int) chunks++ == fail_chunk) { err = 77; ended = true; }
        }
    }
    CHECK(K.eofs == (ended ? 0 : 1), "end of file announced once, only after everything was read");
    if (!ended && fail_eof) err = 78;
    if (kind == 2) {
        CHECK(closes == opens && !fd_open, "the file is closed, once");
        if (close_fail && opens && err == 0) err = ERR_IO;
        else if (close_fail && opens && rc == -1) err = cork_error_code();     /* either of the two errors */
    }
    CHECK(K.n == want && K.chunks == chunks, "every byte read is delivered");
    for (size_t i = 0; i < 8; i++) if (i < want) CHECK(K.got[i] == content[i], "bytes are delivered in order");
    CHECK((rc == 0) == (err == 0) && (rc == 0 || rc == -1), "failures are reported");
    CHECK(err == 0 ? !cork_error_occurred() : cork_error_code() == err, "with the error that happened");
    if (kind < 2) CHECK(fd_open && closes == 0, "the caller's file stays open");
    VP_NO_LEAK();
    WITNESS("case");
}
static bool scripts(unsigned n)
{
    bool end = false;
    for (unsigned i = 0; i < SCRIPT; i++, n /= NSTEP) {
        script[i] = n % NSTEP;
        if (end && script[i] != 0) return false;
        end = script[i] == 0 || script[i] == EERR;
    }
    return true;
}
static unsigned power(unsigned b, unsigned e) { unsigned r = 1; while (e--) r *= b; return r; }
void h_produce(void)
{
    unsigned total = power(NSTEP, SCRIPT);
    CASES();
    for (unsigned n = 0; n < total; n++) {
        if (!scripts(n)) continue;
        for (unsigned kind = 0; kind < 2; kind++) for (int f = -1; f < SCRIPT; f++)
            CASE() { produce(kind, f, false, 0); return; }
        CASE() { produce(0, -1, true, 0); return; }
        CASE() { produce(1, -1, true, 0); return; }
    }
    CASES_END();
}
void h_produce_path(void)
{
    unsigned total = power(NSTEP, SCRIPT);
    CASES();
    for (unsigned n = 0; n < total; n++) {
        if (!scripts(n)) continue;
        for (unsigned o = 0; o < 6; o++) for (int f = -1; f < SCRIPT; f++)
            CASE() { produce(2, f, o & 1, o); return; }
    }
    CASES_END();
}
/* kind: 0 fd, 1 FILE, 2 path; chunks of the given sizes, then eof (or not) */
static void consume(unsigned kind, unsigned sizes, bool eof, unsigned path_opts)
{
    struct cork_stream_consumer *c; size_t given = 0; bool failed = false, expect = false;
    restart(); nout = 0;
    open_intr = path_opts & 1; open_fail = (path_opts & 6) == 2; close_fail = (path_opts & 6) == 4;
    if (kind == 2) {
        fd_open = false;
        c = cork_file_from_path_consumer_new("the/path", 0x1234);
        CHECK(open_flags == 0x1234 && strcmp(open_path, "the/path") == 0, "opened as asked");
        CHECK((c == NULL) == open_fail, "a file that cannot be opened is reported");
        if (open_fail) { CHECK(cork_error_code() == ENOENT, "with the reason"); VP_NO_LEAK(); WITNESS("case"); return; }
    } else c = kind == 0 ? cork_fd_consumer_new(FD) : cork_file_consumer_new(FILEP);
    unsigned p = 0;
    for (unsigned i = 0; i < 2 && !failed; i++) {
        size_t n = (i == 0 ? sizes % 5 : sizes / 5);
        uint8_t *x = vp_exact(n);
        for (size_t k = 0; k < n; k++) x[k] = content[given + k];
        /* what the script makes of this chunk */
        size_t left = n;
        if (kind == 1) {
            if (p < SCRIPT) { int st = script[p++]; if ((st == S1 && n > 1) || (st == EERR && n > 0)) expect = true; left = expect ? (st == S1 ? n - 1 : n) : 0; } else left = 0;
        } else
            while (left > 0 && !expect) {
                int st = p < SCRIPT ? script[p++] : 0;
                if (st == EERR) expect = true;
                else if (st == 0) left = 0;
                else if (st != EINT) left -= left < (size_t) st ? left : (size_t) st;
            }
        int rc = cork_stream_consumer_data(c, x, n, i == 0);
        CHECK((rc == 0) == !expect && (rc == 0 || rc == -1), "a failing write is reported");
        if (rc != 0) { failed = true; CHECK(cork_error_code() == ERR_IO, "with the reason"); }
        else { CHECK(!cork_error_occurred(), "no error without one"); CHECK(nout == given + n, "every byte is written"); }
        CHECK(nout == given + n - left, "bytes are written once");
        given += n;
        vp_exact_free(x, n);
    }
    for (size_t k = 0; k < 8; k++) if (k < nout) CHECK(out[k] == content[k], "bytes are written in order");
    if (eof && !failed) {
        int rc = cork_stream_consumer_eof(c);
        CHECK((rc == 0) == !(kind == 2 && close_fail), "a failing close is reported");
        if (kind == 2) CHECK(closes == 1, "closed at end of file");
    }
    cork_stream_consumer_free(c);
    if (kind == 2) CHECK(closes == 1 && !fd_open, "the file it opened is closed, once"); else CHECK(closes == 0, "the caller's file stays open");
    VP_NO_LEAK();
    WITNESS("case");
}
void h_consume(void)
{
    static const uint8_t sizes[] = { 0, 1, 2, 3, 5 + 1, 10 + 2, 15 + 0, 5 + 3 };
    unsigned total = power(NSTEP, SCRIPT);
    CASES();
    for (unsigned n = 0; n < total; n++) {
        if (!scripts(n)) continue;
        for (unsigned kind = 0; kind < 2; kind++) for (unsigned s = 0; s < sizeof sizes; s++)
            CASE() { consume(kind, sizes[s], s & 1, 0); return; }
    }
    for (unsigned o = 0; o < 6; o++) for (unsigned e = 0; e < 2; e++) {
        CASE() { scripts(0); consume(2, 7, e, o); return; }
        CASE() { scripts(EINT + NSTEP * S1); consume(2, 7, e, o); return; }
        CASE() { scripts(EERR); consume(2, 7, e, o); return; }
    }
    CASES_END();
}
