/* LD_PRELOAD seam for the allocations that NumPy makes for the data of arrays.
   The call sites are learned once (shim_learn), then allocations from these sites
   can be counted and made to fail.  Off unless armed. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
static void *(*rm)(size_t), *(*rc)(size_t, size_t), *(*rr)(void *, size_t);
static size_t lo, hi, learn_size;
static long countdown = -1, hits, seen;
static int armed, sticky, nsites;
static void *sites[16];
static __thread int in;
static char boot[65536];
static size_t bo;
static void init(void) {
    if (rm) return;
    in = 1;
    rm = dlsym(RTLD_NEXT, "malloc"); rc = dlsym(RTLD_NEXT, "calloc"); rr = dlsym(RTLD_NEXT, "realloc");
    in = 0;
}
static int fail(size_t n, void *ra) {
    if (learn_size) {
        if (n == learn_size && nsites < 16) {
            for (int i = 0; i < nsites; i++) if (sites[i] == ra) return 0;
            sites[nsites++] = ra;
        }
        return 0;
    }
    if (!armed || n < lo || n > hi) return 0;
    int known = 0;
    for (int i = 0; i < nsites; i++) known |= sites[i] == ra;
    if (!known) return 0;
    seen++;
    if (countdown > 0) { countdown--; return 0; }
    if (countdown == 0) { hits++; if (!sticky) countdown = -1; return 1; }
    return 0;
}
void *malloc(size_t n) {
    if (!rm) init();
    if (fail(n, __builtin_return_address(0))) { errno = ENOMEM; return NULL; }
    return rm(n);
}
void *calloc(size_t a, size_t b) {
    if (!rc) {
        if (in) { void *p = boot + bo; bo += (a * b + 15) & ~15UL; return p; }
        init();
    }
    if (fail(a * b, __builtin_return_address(0))) { errno = ENOMEM; return NULL; }
    return rc(a, b);
}
void *realloc(void *p, size_t n) {
    if (!rr) init();
    if ((char *)p >= boot && (char *)p < boot + sizeof boot) { void *q = rm(n); memcpy(q, p, n); return q; }
    if (fail(n, __builtin_return_address(0))) { errno = ENOMEM; return NULL; }
    return rr(p, n);
}
void shim_learn(size_t n) { learn_size = n; }
int shim_sites(void) { return nsites; }
void shim_arm(size_t l, size_t h, long n, int st) { lo = l; hi = h; countdown = n; sticky = st; hits = 0; seen = 0; armed = 1; }
long shim_disarm(void) { armed = 0; return hits; }
long shim_seen(void) { return seen; }
