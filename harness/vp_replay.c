/* Native-side runtime: replays a tape of input values through a harness. */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <inttypes.h>
static uint64_t *tape; static size_t ntape, pos;
uint64_t vp_next(void) {
    if (pos < ntape) return tape[pos++];
    pos++; return 0;
}
void vp_fail(const char *msg) {
    printf("VP-FAIL %s\n", msg); fflush(stdout); _Exit(1);
}
void vp_assume_fail(const char *what) {
    printf("VP-ASSUME %s\n", what); fflush(stdout); _Exit(77);
}
void vp_witness(const char *name) { printf("VP-WITNESS %s\n", name); fflush(stdout); }
extern void VP_ENTRY(void);
extern const void *cork_allocator;
int main(int argc, char **argv) {
    if (argc > 1) {
        FILE *f = fopen(argv[1], "r"); uint64_t v; size_t cap = 0;
        if (!f) return 78;
        while (fscanf(f, "%" SCNu64, &v) == 1) {
            if (ntape == cap) { cap = cap ? cap * 2 : 64; tape = realloc(tape, cap * sizeof *tape); }
            tape[ntape++] = v;
        }
        fclose(f);
    }
    const void *a = cork_allocator;
    VP_ENTRY();
    cork_allocator = a;     /* what runs at exit belongs to the library */
    printf("VP-DONE\n"); fflush(stdout);
    return 0;
}
