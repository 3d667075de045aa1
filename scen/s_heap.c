/* P20 block model of the symmetric heap, P21 synchronisation of the allocation calls, P22 block model of the space pools */
#include "setup.h"
#define MAXB 40
typedef struct { unsigned char *p; size_t n; int seed; int ext; } blk_t;
static blk_t B[MAXB];
static int nb, step, pg;
static int seed_of(int pe, int s) { return s * 8 + pe; }
#define NULLMARK 1
/* the outcome of the step must be the same on all PEs: exchange the canonical address (that on PE 0) */
static void exchange(void *p, const char *what)
{
    int me = mc_pe(), n = mc_npes();
    int64_t v = p ? (int64_t) (intptr_t) mc_remote(p, 0) : NULLMARK;
    mc_assert(v != 0, "%s returned an address outside the symmetric memory", what);
    mc_assert(v >> 48 == 0, "internal: address");
    int64_t tag = (int64_t) (step + 1) << 48;
    mc_ghost_set(step % 4 * 4 + me, v | tag);
    for (int q = 0; q < n; q++) {
        int64_t w = mc_ghost(step % 4 * 4 + q);
        if (w >> 48 == step + 1) mc_assert((w ^= tag) == v, w == NULLMARK || v == NULLMARK ? "step %d, %s: NULL on one PE but not on another" : "step %d, %s: different heap offsets on two PEs", step, what);
    }
    step++;
}
static void verify(const char *what)
{
    for (int i = 0; i < nb; i++)
        for (size_t k = 0; k < B[i].n; k++)
            mc_assert(B[i].p[k] == pat(B[i].seed, k), "%s changed byte %zu of a live block of %zu bytes", what, k, B[i].n);
}
/* enter a block: checks range, alignment, disjointness; fills it */
static void enter(void *v, size_t n, size_t al, int ext, const char *what)
{
    unsigned char *p = v;
    mc_assert(((uintptr_t) p & (al - 1)) == 0, "%s(%zu): result is not aligned to %zu", what, n, al);
    for (int q = 0; q < mc_npes(); q++) {
        void *a = mc_remote(p, q), *e = mc_remote(p + n - 1, q);
        mc_assert(a && e && (char *) e - (char *) a == (long) n - 1, "%s(%zu): the block is not completely inside the symmetric memory", what, n);
        mc_assert(shmem_addr_accessible(p, q) && shmem_addr_accessible(p + n - 1, q), "%s(%zu): the block is not accessible on PE %d", what, n, q);
    }
    for (int i = 0; i < nb; i++)
        mc_assert(p + n <= B[i].p || B[i].p + B[i].n <= p, "%s(%zu): the block overlaps a live block of %zu bytes", what, n, B[i].n);
    mc_assert(nb < MAXB, "internal: too many blocks");
    B[nb] = (blk_t) { p, n, seed_of(mc_pe(), step), ext };
    fill(p, n, B[nb].seed);
    nb++;
    verify(what);
}
static void drop(int i) { for (; i + 1 < nb; i++) B[i] = B[i + 1]; nb--; }
/* every byte of every block can be written from the neighbour */
static void remote_check(void)
{
    static unsigned char buf[16384], got[16384];
    int me = mc_pe(), n = mc_npes(), to = (me + 1) % n, fr = (me + n - 1) % n;
    shmem_barrier_all();
    for (int i = 0; i < nb; i++) {
        mc_assert(B[i].n <= sizeof buf, "internal");
        fill(buf, B[i].n, 1000 + seed_of(me, i));
        shmem_putmem(B[i].p, buf, B[i].n, to);
        shmem_quiet();
    }
    shmem_barrier_all();
    for (int i = 0; i < nb; i++) {
        for (size_t k = 0; k < B[i].n; k++)
            mc_assert(B[i].p[k] == pat(1000 + seed_of(fr, i), k), "byte %zu of a block of %zu bytes did not receive the data put to it", k, B[i].n);
        memset(got, 0, B[i].n);
        shmem_getmem(got, B[i].p, B[i].n, to);
        for (size_t k = 0; k < B[i].n; k++) mc_assert(got[k] == pat(1000 + seed_of(me, i), k), "byte %zu of a block of %zu bytes was not read back", k, B[i].n);
    }
    shmem_barrier_all();
    for (int i = 0; i < nb; i++) fill(B[i].p, B[i].n, B[i].seed);
}
static size_t biggest(void)
{
    for (size_t s = 64 * pg; s >= 64; s -= 64) {
        void *p = shmem_malloc(s);
        if (p) { shmem_free(p); return s; }
    }
    mc_fail("nothing can be allocated from an empty heap");
}
/* the current or the deprecated names */
static int h_old;
static void *h_malloc(size_t n) { return h_old ? shmalloc(n) : shmem_malloc(n); }
static void *h_align(size_t a, size_t n) { return h_old ? shmemalign(a, n) : shmem_align(a, n); }
static void *h_realloc(void *p, size_t n) { return h_old ? shrealloc(p, n) : shmem_realloc(p, n); }
static void h_free(void *p) { if (h_old) shfree(p); else shmem_free(p); }
static void *take(int op, size_t *n, size_t *al, int *zero, const char **w)
{
    *al = 16; *zero = 0;
    switch (op) {
    case 0: *w = "shmem_malloc"; return h_malloc(*n = 24);
    case 1: *w = "shmem_malloc"; return h_malloc(*n = 1500);
    case 2: *w = "shmem_calloc"; *zero = 1; *n = 120; return shmem_calloc(3, 40);
    case 3: *w = "shmem_align"; return h_align(*al = 256, *n = 100);
    case 4: *w = "shmem_malloc_with_hints"; return shmem_malloc_with_hints(*n = 200, SHMEM_MALLOC_ATOMICS_REMOTE);
    case 5: *w = "shmem_realloc"; return h_realloc(NULL, *n = 50);
    case 6: *w = "shmem_align"; return h_align(*al = 1024, *n = 1024);
    case 7: *w = "shmem_calloc"; *zero = 1; *n = 2000; return shmem_calloc(2000, 1);
    case 8: *w = "shmem_malloc"; return h_malloc(*n = 1);
    case 9: *w = "shmem_align"; return h_align(*al = 64, *n = 7);
    }
    return NULL;
}
#define NTAKE 10
#define NFAIL 4
/* requests that cannot be satisfied or give nothing */
static void *take_fail(int op, const char **w)
{
    switch (op) {
    case 0: *w = "shmem_malloc(huge)"; return h_malloc((size_t) 1 << 40);
    case 1: *w = "shmem_calloc(overflow)"; return shmem_calloc((SIZE_MAX >> 1) + 2, 2);
    case 2: *w = "shmem_align(huge)"; return h_align(64, SIZE_MAX - 200);
    case 3: *w = "shmem_malloc(heap size + 1 page)"; return h_malloc(pg * 64);
    }
    return NULL;
}
static void do_realloc(int i, int how)
{
    size_t o = B[i].n, n = how == 0 ? o + 700 : how == 1 ? (o + 1) / 2 : how == 2 ? (size_t) 1 << 40 : 0;
    unsigned char *p = B[i].p, *r;
    blk_t b = B[i];
    drop(i);
    r = h_realloc(p, n);
    if (how == 3) { mc_assert(r == NULL, "shmem_realloc(ptr, 0) returned a block"); exchange(r, "shmem_realloc"); verify("shmem_realloc"); return; }
    if (!r) { /* failed: the old block is untouched */
        exchange(r, "shmem_realloc");
        mc_assert(how != 1, "shrinking a block failed");
        B[nb++] = b;
        verify("failed shmem_realloc");
        return;
    }
    mc_assert(how != 2, "shmem_realloc to 2^40 bytes succeeded");
    for (size_t k = 0; k < (o < n ? o : n); k++) mc_assert(r[k] == pat(b.seed, k), "shmem_realloc from %zu to %zu bytes lost byte %zu", o, n, k);
    exchange(r, "shmem_realloc");
    enter(r, n, 16, 0, "shmem_realloc");
}
MC_SCEN(heap_seq)
{
    shmem_init();
    pg = 1024;
    h_old = mc_arg("old", 0);
    int depth = mc_arg("depth", 3), sum = 0;
    size_t big = biggest();
    for (int s = 0; s < depth; s++) {
        int live = nb < 3 ? nb : 3;
        int c = mc_choose_all(NTAKE + NFAIL + live * 5);
        sum = sum * 31 + c;
        if (c < NTAKE) {
            size_t n, al; int z; const char *w;
            void *p = take(c, &n, &al, &z, &w);
            exchange(p, w);
            if (!nb && (long) n <= mc_arg("heap", 4000)) mc_assert(p, "%s(%zu) failed on an empty heap", w, n);
            if (p && z) for (size_t k = 0; k < n; k++) mc_assert(((char *) p)[k] == 0, "shmem_calloc: byte %zu is not zero", k);
            if (p) enter(p, n, al, 0, w); else verify(w);
        } else if (c < NTAKE + NFAIL) {
            const char *w;
            void *p = take_fail(c - NTAKE, &w);
            mc_assert(p == NULL, "%s returned a block", w);
            exchange(p, w);
            verify(w);
        } else {
            int i = (c - NTAKE - NFAIL) / 5, how = (c - NTAKE - NFAIL) % 5;
            if (how < 4) do_realloc(i, how);
            else { unsigned char *p = B[i].p; drop(i); h_free(p); verify("shmem_free"); }
        }
    }
    if (nb) remote_check();
    mc_obs(0, sum);
    while (nb) { unsigned char *p = B[nb - 1].p; drop(nb - 1); h_free(p); }
    void *p = h_malloc(big);
    mc_assert(p != NULL, "after freeing everything, a block of %zu bytes that fitted before cannot be allocated", big);
    enter(p, big, 16, 0, "shmem_malloc");
    remote_check();
    shmem_barrier_all();
    h_free(p);
    shmem_finalize();
}
/* every hint, several sizes, pairs of live blocks; every byte used locally and remotely, atomics on the first word */
static const long hintv[] = { 0, SHMEM_MALLOC_ATOMICS_REMOTE, SHMEM_MALLOC_SIGNAL_REMOTE, SHMEM_MALLOC_ATOMICS_REMOTE | SHMEM_MALLOC_SIGNAL_REMOTE };
MC_SCEN(heap_hints)
{
    static const size_t sz[] = { 8, 1, 24, 100, 1001 };
    shmem_init();
    pg = 1024;
    int me = shmem_my_pe(), n = shmem_n_pes();
    for (int h = 0; h < 4; h++) for (int g = 0; g < 4; g++) for (int i = 0; i < NELEM(sz); i++) for (int k = 0; k < NELEM(sz); k += 2) {
        long *p = shmem_malloc_with_hints(sz[i], hintv[h]), *q;
        exchange(p, "shmem_malloc_with_hints");
        mc_assert(p, "shmem_malloc_with_hints(%zu, 0x%lx) failed on an empty heap", sz[i], hintv[h]);
        enter(p, sz[i], 16, 0, "shmem_malloc_with_hints");
        q = shmem_malloc_with_hints(sz[k], hintv[g]);
        exchange(q, "shmem_malloc_with_hints");
        mc_assert(q, "shmem_malloc_with_hints(%zu, 0x%lx) failed", sz[k], hintv[g]);
        enter(q, sz[k], 16, 0, "shmem_malloc_with_hints");
        remote_check();
        if (sz[i] >= 8) {
            *p = 40;
            shmem_barrier_all();
            mc_assert(shmem_long_atomic_fetch_add(p, 2, (me + 1) % n) == 40, "atomic on memory allocated with hints");
            shmem_barrier_all();
            mc_assert(RD(p, me) == 42, "atomic on memory allocated with hints lost");
            fill(p, sz[i], B[0].seed);
        }
        drop(0);
        shmem_free(p);
        verify("shmem_free");
        drop(0);
        shmem_free(q);
    }
    shmem_finalize();
}
#ifdef MC_VARIANT_BIG
/* request sizes around every power of two, in a heap of 1 MB: allocate, resize or replace, use remotely */
static void bverify(const unsigned char *p, size_t n, int seed, const char *what)
{
    for (size_t k = 0; k < n; k++) mc_assert(p[k] == pat(seed, k), "%s: byte %zu of a block of %zu bytes changed", what, k, n);
}
MC_SCEN(heap_sizes)
{
    static unsigned char back[600000];
    static const size_t bs[] = { 1, 17, 200, 256, 1000, 4096, 5000, 20000, 65536, 100000, 262144, 300000, 500000 };
    shmem_init();
    int me = shmem_my_pe(), n = shmem_n_pes(), to = (me + 1) % n, fr = (me + n - 1) % n, how = mc_choose_all(4), e = mc_choose_all(20), dd = mc_choose_all(3) - 1, next = mc_choose_all(2), b = mc_choose_all(NELEM(bs));
    size_t a = (1UL << e) + dd, c = bs[b], al = how == 2 ? (int[]) { 32, 128, 4096 }[mc_choose_all(3)] : 16;
    int ok = (dd == 0 || e > 1) && a <= sizeof back;
    mc_obs(0, how + 10 * e + 1000 * dd + 10000 * next + 100000 * b);
    if (ok) {
        unsigned char *g0 = shmem_malloc(40), *p = how == 0 ? shmem_malloc(a) : how == 1 ? shmem_calloc(a, 1) : how == 2 ? shmem_align(al, a) : shmem_realloc(NULL, a), *g1 = shmem_malloc(40), *q;
        mc_assert(g0 && p && g1, "allocating %zu bytes from an empty heap of 1 MB failed", a);
        if (how == 1) for (size_t k = 0; k < a; k++) mc_assert(p[k] == 0, "shmem_calloc(%zu): byte %zu is not zero", a, k);
        mc_assert(((uintptr_t) p & (al - 1)) == 0, "the block of %zu bytes is not aligned to %zu", a, al);
        fill(g0, 40, 3); fill(g1, 40, 4); fill(p, a, me + 10);
        unsigned char *rp = mc_remote(p, to), *re = mc_remote(p + a - 1, to);
        mc_assert(rp && re && re - rp == (long) a - 1, "a block of %zu bytes is not completely inside the symmetric memory", a);
        mc_ghost_set(me, (int64_t) (intptr_t) mc_remote(p, 0));
        shmem_barrier_all();
        mc_assert(mc_ghost(to) == mc_ghost(me), "a block of %zu bytes has different heap offsets on two PEs", a);
        shmem_getmem(back, p, a, to);
        bverify(back, a, to + 10, "shmem_getmem of a whole block");
        shmem_barrier_all();
        if (next == 0) {
            q = shmem_realloc(p, c);
            mc_assert(q != NULL, "shmem_realloc from %zu to %zu bytes failed in a heap of 1 MB", a, c);
            bverify(q, a < c ? a : c, me + 10, "shmem_realloc");
        } else {
            unsigned char *h = shmem_malloc(c);
            if (h) { mc_assert(h + c <= p || p + a <= h, "blocks of %zu and %zu bytes overlap", a, c); fill(h, c, me + 30); bverify(p, a, me + 10, "writing a second block"); }
            else mc_assert(a + c > 900000, "allocating %zu bytes next to %zu failed in a heap of 1 MB", c, a);
            shmem_free(p);
            if (h) bverify(h, c, me + 30, "shmem_free of another block");
            q = shmem_calloc(1, c);
            mc_assert(q != NULL || a + 2 * c > 900000, "allocating %zu bytes after releasing %zu failed in a heap of 1 MB", c, a);
            if (h) bverify(h, c, me + 30, "shmem_calloc of another block");
            if (q) for (size_t k = 0; k < c; k++) mc_assert(q[k] == 0, "shmem_calloc(%zu) of released memory: byte %zu is not zero", c, k);
            if (h) shmem_free(h);
        }
        bverify(g0, 40, 3, "the block before"); bverify(g1, 40, 4, "the block after");
        if (q) {
            fill(q, c, me + 50);
            rp = mc_remote(q, to); re = mc_remote(q + c - 1, to);
            mc_assert(rp && re && re - rp == (long) c - 1, "a block of %zu bytes is not completely inside the symmetric memory", c);
            shmem_barrier_all();
            shmem_getmem(back, q, c, to);
            bverify(back, c, to + 50, "shmem_getmem of a whole block");
            shmem_barrier_all();
            fill(back, c, me + 70);
            shmem_putmem(q, back, c, to);
            shmem_barrier_all();
            bverify(q, c, fr + 70, "shmem_putmem of a whole block");
            bverify(g0, 40, 3, "the block before"); bverify(g1, 40, 4, "the block after");
            shmem_free(q);
        }
        shmem_free(g1); shmem_free(g0);
        p = shmem_malloc(1000000);
        mc_assert(p != NULL, "after freeing everything, 1000000 bytes cannot be allocated from a heap of 1 MB");
        shmem_free(p);
    }
    shmem_finalize();
    mc_leakcheck();
}
/* many blocks: fill the heap with one size, release by a pattern, refill with another size */
MC_SCEN(heap_many)
{
    enum { MANY = 600 };
    static struct { unsigned char *p; int n, s; } b[MANY];
    static const int sz[] = { 24, 100, 250, 600, 1200, 2500 };
    shmem_init();
    int s1 = sz[mc_choose_all(NELEM(sz))], s2 = sz[mc_choose_all(NELEM(sz))], pattern = mc_choose_all(7), n = 0, seed = 0, sum = 0, me = shmem_my_pe(), to = (me + 1) % shmem_n_pes();
    unsigned char *p;
    while (n < MANY && (p = shmem_malloc(s1))) { b[n].p = p; b[n].n = s1; b[n].s = seed++; fill(p, s1, b[n].s); n++; }
    int full = n;
    mc_assert(n > 3, "only %d blocks of %d bytes fit into the heap", n, s1);
    int kept = 0;
    for (int i = 0; i < n; i++) {
        int k = pattern == 5 ? n - 1 - i : i;
        int fr = pattern == 0 ? k & 1 : pattern == 1 ? !(k & 1) : pattern == 2 ? k % 3 != 1 : pattern == 3 ? k >= n / 3 && k < 2 * n / 3 : pattern == 6 ? (k * 7 + 3) % 5 < 3 : 1;
        if (fr) { shmem_free(b[k].p); b[k].p = NULL; } else kept++;
    }
    for (int i = 0; i < n; i++) if (b[i].p) { bverify(b[i].p, b[i].n, b[i].s, "releasing other blocks"); b[kept < 0 ? 0 : sum] = b[i]; sum++; }
    n = sum;
    while (n < MANY && (p = shmem_malloc(s2))) {
        mc_assert(mc_remote(p, to) && mc_remote(p + s2 - 1, to) == (char *) mc_remote(p, to) + s2 - 1, "a block of %d bytes is not completely inside the symmetric memory", s2);
        b[n].p = p; b[n].n = s2; b[n].s = seed++; fill(p, s2, b[n].s); n++;
        mc_ghost_set(me * 2 + (n & 1), (int64_t) (intptr_t) mc_remote(p, 0) ^ (int64_t) n << 48);
        if ((mc_ghost(to * 2 + (n & 1)) >> 48) == n) mc_assert(mc_ghost(to * 2 + (n & 1)) == mc_ghost(me * 2 + (n & 1)), "block %d has different heap offsets on two PEs", n);
    }
    if (s2 <= s1) mc_assert(n - sum >= full - sum, "only %d blocks of %d bytes fit where %d blocks of %d bytes were released", n - sum, s2, full - sum, s1);
    for (int i = 0; i < n; i++) bverify(b[i].p, b[i].n, b[i].s, "allocating other blocks");
    shmem_barrier_all();
    for (int i = 0; i < n; i++) { unsigned char x = b[i].s; shmem_putmem(b[i].p + b[i].n - 1, &x, 1, to); if (i % 16 == 15) shmem_quiet(); }
    shmem_barrier_all();
    for (int i = 0; i < n; i++) mc_assert(b[i].p[b[i].n - 1] == (unsigned char) b[i].s, "the last byte of a block did not receive the data put to it");
    for (int i = 0; i < n; i++) shmem_free(b[(i * 2) % n + (n % 2 == 0 && i >= n / 2)].p);
    for (int i = 0; i < full; i++) mc_assert(b[i].p = shmem_malloc(s1), "only %d blocks of %d bytes fit after everything was released, %d before", i, s1, full);
    for (int i = 0; i < full; i++) shmem_free(b[i].p);
    shmem_finalize();
    mc_leakcheck();
}
#endif
/* fill the heap, free in several orders, fill again */
MC_SCEN(heap_exhaust)
{
    shmem_init();
    pg = 1024;
    static const int sizes[] = { 3000, 1000, 520, 333, 256 };
    int sz = sizes[mc_choose_all(5)], kind = mc_choose_all(3), order = mc_choose_all(4), cnt = 0;
    for (int round = 0; round < 2; round++) {
        int c = 0;
        for (;;) {
            void *p = kind == 0 ? shmem_malloc(sz) : kind == 1 ? shmem_calloc(sz / 4, 4) : shmem_align(128, sz);
            exchange(p, "allocation");
            if (!p) { verify("failed allocation"); break; }
            if (kind == 1) for (int k = 0; k < sz / 4 * 4; k++) mc_assert(((char *) p)[k] == 0, "shmem_calloc: byte %d is not zero", k);
            enter(p, kind == 1 ? sz / 4 * 4 : sz, kind == 2 ? 128 : 16, 0, "allocation");
            c++;
        }
        mc_assert(c >= 1, "no block of %d bytes fits into the heap", sz);
        mc_assert(shmem_malloc((size_t) pg * 64) == NULL, "allocation beyond the heap size succeeded");
        if (round == 0) cnt = c; else mc_assert(c >= cnt, "only %d blocks of %d bytes fit after freeing everything, %d before", c, sz, cnt);
        remote_check();
        if (round == 0 && order == 3) { /* free every second one, reallocate those only */
            int freed = 0;
            for (int i = 0; i < nb; i++) { unsigned char *p = B[i].p; drop(i); shmem_free(p); freed++; verify("shmem_free"); }
            for (int i = 0; i < freed; i++) { void *p = shmem_malloc(sz - 8); exchange(p, "shmem_malloc"); mc_assert(p, "a freed block cannot be allocated again"); enter(p, sz - 8, 16, 0, "shmem_malloc"); }
        }
        while (nb) {
            int i = order == 0 ? 0 : order == 1 ? nb - 1 : nb / 2;
            unsigned char *p = B[i].p;
            drop(i);
            shmem_free(p);
            verify("shmem_free");
        }
    }
    shmem_finalize();
}
/* ---- P21 ---- */
static void *do_alloc(int how, size_t n)
{
    switch (how) {
    case 0: return shmem_malloc(n);
    case 1: return shmem_calloc(n / 8, 8);
    case 2: return shmem_align(64, n);
    case 3: return shmem_malloc_with_hints(n, 0);
    case 4: return shmem_realloc(NULL, n);
    case 5: return shmemx_space_malloc(sp1, n);
    case 6: return shmemx_space_calloc(sp1, n / 8, 8);
    case 7: return shmemx_space_align(sp1, 64, n);
    case 8: case 9: case 10: return shmem_malloc_with_hints(n, hintv[how - 7]);
    }
    return NULL;
}
/* an allocation returns only after all PEs have allocated: the block can be used on every PE at once */
MC_SCEN(alloc_sync)
{
    setup();
    int me = shmem_my_pe(), n = shmem_n_pes(), how = mc_choose_all(mc_arg("space", 0) ? 11 : 8), use = mc_choose_all(3), dist = n > 2 ? 1 + mc_choose_all(2) : 1;
    int to = (me + dist) % n, fr = (me + n - dist) % n;
    if (!mc_arg("space", 0) && how >= 5) how += 3;
    void *junk = do_alloc(how, 64);
    memset(junk, 0x5a, 64);
    shmem_free(junk);
    mc_obs(0, how * 100 + use * 10 + dist);
    mc_begin();
    mc_ghost_add(0, 1);
    long *p = do_alloc(how, 64);
    mc_assert(mc_ghost(0) == n, "the allocation returned before all PEs have entered it");
    long v = 77 + me, g = 0;
    if (how == 1 || how == 6) { /* zero on return, everywhere */
        mc_assert(p[7] == 0 && RD(&p[7], to) == 0, "calloc returned before the block was zero");
    }
    if (use == 0) { shmem_long_put(&p[0], &v, 1, to); shmem_quiet(); }
    if (use == 1) { shmem_long_p(&p[0], v, to); shmem_quiet(); g = shmem_long_g(&p[0], to); }
    if (use == 2) { shmem_long_atomic_set(&p[0], v, to); shmem_quiet(); g = shmem_long_atomic_fetch(&p[0], to); }
    if (use) mc_assert(g == v, "use after allocation: read back %ld, expected %ld", g, v);
    shmem_barrier_all();
    mc_assert(p[0] == 77 + fr, "data put into a new block got lost: %ld", p[0]);
    mc_end();
    shmem_free(p);
    teardown();
}
/* allocation and release act as a barrier: operations issued before are complete at return */
MC_SCEN(alloc_complete)
{
    setup();
    int me = shmem_my_pe(), n = shmem_n_pes(), how = mc_choose_all(mc_arg("space", 0) ? 12 : 8), explore = mc_arg("explore", 0);
    static const int ops[] = { OP_PUT, OP_ADD, OP_PUTNBI_H, OP_GETNBI, OP_FADDNBI, OP_IPUT, OP_PUT_S, OP_ADD_S };
    int op = ops[mc_choose_all(mc_arg("nops", mc_arg("space", 0) ? 8 : 6))], dist = n > 2 ? 1 + mc_choose_all(2) : 1;
    void *p = how == 8 ? shmemx_space_malloc(sp1, 64) : how >= 5 && how < 8 ? shmem_malloc(64) : NULL;
    mc_obs(0, how * 1000 + op * 10 + dist);
    if (explore) mc_begin();
    ops_issue(op, 0, (me + dist) % n);
    switch (how) {
    case 5: case 8: shmem_free(p); p = NULL; break;
    case 6: p = shmem_realloc(p, 128); break;
    case 7: p = shmem_realloc(p, 32); break;
    case 9: case 10: case 11: p = do_alloc(how - 4, 64); break;
    default: p = do_alloc(how, 64); break;
    }
    ops_check_remote(op, 0, (me + n - dist) % n, me, "on its target, after an allocation call");
    ops_check_remote(op, 0, me, (me + dist) % n, "after an allocation call");
    ops_check_local(op, 0, "after an allocation call");
    shmem_barrier_all();
    if (explore) mc_end();
    if (p) shmem_free(p);
    teardown();
}
/* communication to a block that was issued before its release does not reach later users of the memory; the block stays
   usable on a PE until all PEs have released it */
MC_SYMM static long fs_flag[4];
MC_SCEN(free_sync)
{
    setup();
    int me = shmem_my_pe(), n = shmem_n_pes(), how = mc_choose_all(mc_arg("space", 0) ? 4 : 3), dist = n > 2 ? 1 + mc_choose_all(2) : 1;
    static const int ops[] = { OP_PUT, OP_PUTNBI, OP_P, OP_IPUT, OP_ADD, OP_SET, OP_SWAPNBI, OP_GETNBI, OP_FADDNBI };
    int op = ops[mc_choose_all(NELEM(ops))];
    int to = (me + dist) % n;
    size_t sz = ops_rows * sizeof ops_st[0];
    long (*blk)[4] = how == 3 ? shmemx_space_malloc(sp1, sz) : shmem_malloc(sz);
    long *old = (long *) blk;
    mc_assert(blk != NULL, "allocation failed");
    long val[4] = { 901 + me, 902, 903, 904 };
    static long res[4];
    for (int k = 0; k < (int) (sz / 8); k++) old[k] = 11 + k;
    mc_obs(0, how * 1000 + op * 10 + dist);
    shmem_barrier_all();
    mc_begin();
    switch (op) {
    case OP_PUT: shmem_long_put(old + me * 4, val, 4, to); break;
    case OP_PUTNBI: for (int k = 0; k < 4; k++) res[k] = val[k]; shmem_long_put_nbi(old + me * 4, res, 4, to); break;
    case OP_P: shmem_long_p(old + me * 4, val[0], to); break;
    case OP_IPUT: shmem_long_iput(old + me * 4, val, 2, 1, 2, to); break;
    case OP_ADD: shmem_long_atomic_add(old + me * 4, val[0], to); break;
    case OP_SET: shmem_long_atomic_set(old + me * 4, val[0], to); break;
    case OP_SWAPNBI: shmem_long_atomic_swap_nbi(&res[0], old + me * 4, val[0], to); break;
    case OP_FADDNBI: shmem_long_atomic_fetch_add_nbi(&res[0], old + me * 4, val[0], to); break;
    case OP_GETNBI: shmem_long_get_nbi(res, old + me * 4, 4, to); break;
    }
    long *nw;
    if (how == 0 || how == 3) { shmem_free(old); nw = how == 3 ? shmemx_space_malloc(sp1, sz) : shmem_malloc(sz); }
    else if (how == 1) { nw = shmem_realloc(old, sz * 2); shmem_free(nw); nw = shmem_malloc(sz); }
    else { mc_assert(shmem_realloc(old, 0) == NULL, "realloc(ptr, 0) returned a block"); nw = shmem_malloc(sz); }
    mc_assert(nw != NULL, "reallocation failed");
    for (size_t k = 0; k < sz / 8; k++) nw[k] = 5000 + k;
    shmem_barrier_all();
    if (op == OP_GETNBI) for (int k = 0; k < 4; k++) mc_assert(res[k] == 11 + me * 4 + k, "get_nbi from a block before its release returned %ld", res[k]);
    if (op == OP_SWAPNBI || op == OP_FADDNBI) mc_assert(res[0] == 11 + me * 4, "fetching atomic on a block before its release returned %ld", res[0]);
    for (size_t k = 0; k < sz / 8; k++) mc_assert(nw[k] == 5000 + (long) k, "an operation issued before the block's release changed a later block");
    mc_end();
    shmem_free(nw);
    teardown();
}
/* one PE still works on the block (remotely) while another one already releases or reallocates it */
MC_SCEN(free_use)
{
    setup();
    int me = shmem_my_pe(), n = shmem_n_pes(), how = mc_choose_all(mc_arg("space", 0) ? 4 : 3), slow = mc_choose_all(n), use = mc_choose_all(4), at = (int[]) { 0, 1, 3, 9, 10, 12, 31 }[mc_choose_all(7)];
    long *b = how == 3 ? shmemx_space_malloc(sp1, 256) : shmem_malloc(256), *nw = NULL;
    /* with a live block behind it, a released block stays apart (and is linked into the allocator's lists) */
    int guard = how < 3 && mc_choose_all(2);
    long *gb = guard ? shmem_malloc(64) : NULL;
    if (gb) memset(gb, 0x77, 64);
    for (int k = 0; k < 32; k++) b[k] = 100 * me + k;
    mc_obs(0, (how * 100 + use * 10 + slow) * 64 + at + 32 * guard);
    shmem_barrier_all();
    mc_begin();
    if (me == slow) {
        for (int q = 0; q < n; q++) {
            if (q == me) continue;
            long v = 4242, g;
            if (use == 0) { mc_assert((g = shmem_long_g(&b[at], q)) == 100 * q + at, "a block was reused before all PEs released it: read %ld", g); }
            if (use == 1) { shmem_long_p(&b[at], v, q); shmem_quiet(); mc_assert((g = shmem_long_g(&b[at], q)) == v, "a block was reused before all PEs released it: read %ld", g); }
            if (use == 2) { mc_assert((g = shmem_long_atomic_fetch_add(&b[at], 1, q)) == 100 * q + at, "a block was reused before all PEs released it: fetched %ld", g); }
            if (use == 3) { shmem_long_put(&b[at], &v, 1, q); }
        }
    }
    mc_ghost_add(0, 1);
    switch (how) {
    case 0: shmem_free(b); break;
    case 1: nw = shmem_realloc(b, 600); break;
    case 2: nw = shmem_realloc(b, 64); break;
    case 3: shmem_free(b); break;
    }
    mc_assert(mc_ghost(0) == n, "the release returned before all PEs have entered it");
    if (how == 0) nw = shmem_malloc(256);
    if (how == 3) nw = shmemx_space_malloc(sp1, 256);
    mc_assert(nw != NULL, "allocation failed");
    if (how == 1 || how == 2) { /* content, including the updates made before the call by other PEs */
        for (int k = 0; k < (how == 1 ? 32 : 8); k++) {
            long e = 100 * me + k;
            if (me != slow) { if (use == 1 && k == at) e = 4242; if (use == 2 && k == at) e++; if (use == 3 && k == at) e = 4242; }
            mc_assert(nw[k] == e, "element %d is %ld after realloc, expected %ld", k, nw[k], e);
        }
    }
    for (int k = 0; k < 8; k++) nw[k] = -1 - k;
    shmem_barrier_all();
    for (int k = 0; k < 8; k++) mc_assert(nw[k] == -1 - k, "an update of the old block changed the new one");
    mc_end();
    if (gb) { for (int k = 0; k < 64; k++) mc_assert(((char *) gb)[k] == 0x77, "a live block changed"); shmem_free(gb); }
    shmem_free(nw);
    teardown();
}
/* a resized block can be used on every PE, over its whole new size, as soon as the call returns */
MC_SCEN(realloc_use)
{
    setup();
    int me = shmem_my_pe(), n = shmem_n_pes(), neigh = mc_choose_all(4), sz = (int[]) { 40, 128, 320, 600 }[mc_choose_all(4)], writer = mc_choose_all(n), old = 160, amo = mc_choose_all(2);
    int to = (writer + 1) % n;
    long *a = shmem_malloc(old), *b = neigh ? shmem_malloc(400) : NULL, *c = neigh > 1 ? shmem_malloc(64) : NULL;
    if (neigh == 1 || neigh == 2) { memset(b, 0x33, 400); shmem_free(b); b = NULL; } /* 0: end of the used area behind, 1: same, with old data; 2: a free block behind; 3: a live block behind */
    for (int k = 0; k < old / 8; k++) a[k] = 1000 * me + k;
    if (b) memset(b, 0x44, 400);
    if (c) memset(c, 0x55, 64);
    mc_obs(0, neigh * 10000 + sz * 10 + writer);
    shmem_barrier_all();
    mc_begin();
    mc_ghost_add(0, 1);
    long *p = shmem_realloc(a, sz);
    mc_assert(p != NULL, "realloc to %d bytes failed", sz);
    mc_assert(mc_ghost(0) == n, "realloc returned before all PEs have entered it");
    long v[80];
    for (int k = 0; k < sz / 8; k++) v[k] = 5000 + k;
    if (me == writer) {
        if (amo) shmem_long_atomic_set(&p[sz / 8 - 1], v[sz / 8 - 1], to);
        else shmem_putmem(p, v, sz, to);
        shmem_quiet();
    }
    shmem_barrier_all();
    for (int k = 0; k < sz / 8; k++) {
        long e = me == to && (!amo || k == sz / 8 - 1) ? v[k] : k < old / 8 ? 1000 * me + k : p[k];
        mc_assert(p[k] == e, "element %d of a block resized from %d to %d bytes is %ld, expected %ld", k, old, sz, p[k], e);
    }
    if (b) for (int k = 0; k < 400; k++) mc_assert(((char *) b)[k] == 0x44, "a live block changed");
    if (c) for (int k = 0; k < 64; k++) mc_assert(((char *) c)[k] == 0x55, "a live block changed");
    mc_end();
    shmem_free(p);
    void *q = shmem_malloc(500);
    mc_assert(q && mc_remote(q, to), "allocation after realloc failed");
    shmem_free(q);
    if (b) shmem_free(b);
    if (c) shmem_free(c);
    teardown();
}
