/* Runtime for native replays of counterexamples: the harness, the code under test and the model of
 * the operating system, compiled to machine code, with the solver's values read from a tape. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <malloc.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static uint64_t tape[65536];
static size_t ntape, pos;
static int np;
static char *pn[64];
static uint64_t pv[64];
static long live;
static void out(const char *k, const char *p, size_t n) {
    fprintf(stdout, "%s: %.*s\n", k, (int)n, p);
    fflush(stdout);
    _exit(10);
}
uint64_t v_sym(const char *p, size_t n, uint32_t w) {
    uint64_t x = pos < ntape ? tape[pos] : 0;
    pos++;
    return w >= 64 ? x : x & ((1ull << w) - 1);
}
void v_assume(uint32_t c) {
    if (!(c & 1)) { puts("ASSUMPTION"); fflush(stdout); _exit(4); }
}
void v_assert(uint32_t c, const char *p, size_t n) { if (!(c & 1)) out("assert", p, n); }
void v_fail(const char *p, size_t n) { out("fail", p, n); }
void v_cover(const char *p, size_t n) {}
void v_log(const char *p, size_t n, uint64_t x) { printf("%.*s = %llu\n", (int)n, p, (unsigned long long)x); }
uint64_t v_conc(uint64_t x) { return x; }
uint64_t v_param(const char *p, size_t n, uint64_t d) {
    for (int i = 0; i < np; i++) if (strlen(pn[i]) == n && !memcmp(pn[i], p, n)) return pv[i];
    return d;
}
void v_threads(uint64_t p) { puts("THREADS"); fflush(stdout); _exit(5); }
uint64_t v_tid(void) { return 0; }
uint64_t v_block(uint64_t timed) {
    if (!timed) out("stuck", "blocked for ever", 16);
    return 1;
}
void v_unblock(uint64_t t) {}
void v_yield(void) {}
uint64_t v_heap(void) { return live; }
void v_end(void) { puts("END"); fflush(stdout); _exit(0); }
static long live_bytes;
static void *grew(void *p) { if (p) live_bytes += malloc_usable_size(p); return p; }
uint64_t v_heap_bytes(void) { return live_bytes; }
void *vr_malloc(size_t n) { live++; return grew(malloc(n)); }
void *vr_calloc(size_t a, size_t b) { live++; return grew(calloc(a, b)); }
void *vr_realloc(void *p, size_t n) {
    if (!p) live++;
    else live_bytes -= malloc_usable_size(p);
    return grew(realloc(p, n));
}
int vr_posix_memalign(void **p, size_t a, size_t n) { live++; int r = posix_memalign(p, a, n); grew(*p); return r; }
void vr_free(void *p) { if (p) { live--; live_bytes -= malloc_usable_size(p); } free(p); }
int vr_pthread_create(void *a, void *b, void *c, void *d) { *(unsigned long *)a = 1; return 0; }
int vr_pthread_detach(unsigned long t) { return 0; }
int vr_sched_yield(void) { return 0; }
void vr_abort(void) { out("abort", "the program aborted", 19); }
int main(int argc, char **argv) {
    /* native HARNESS TAPEFILE k=v ... */
    FILE *f = fopen(argv[2], "r");
    unsigned long long x;
    while (f && fscanf(f, " %llu%*[,]", &x) == 1) tape[ntape++] = x;
    if (f) fclose(f);
    for (int i = 3; i < argc; i++) {
        char *e = strchr(argv[i], '=');
        *e = 0;
        pn[np] = argv[i];
        pv[np++] = strtoull(e + 1, 0, 10);
    }
    void (*h)(void) = (void (*)(void))dlsym(RTLD_DEFAULT, argv[1]);
    if (!h) { puts("NOHARNESS"); return 2; }
    alarm(60);
    h();
    puts("END");
    return 0;
}
