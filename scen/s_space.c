/* P22 block model of the space pools, P23 spaces in every attach state, P24 contexts */
#include "setup.h"
#define PG 1024
#define SMAX 80
typedef struct { unsigned char *p; size_t n; int seed, sp; } sblk_t;
static sblk_t SB[SMAX];
static int snb, sstep;
static shmemx_space_t S[3];
static size_t Ssz[3];
static size_t up(size_t n) { return (n + PG - 1) / PG * PG; }
static void sx(void *p, const char *what)
{
    int me = mc_pe(), n = mc_npes();
    int64_t v = p ? (int64_t) (intptr_t) mc_remote(p, 0) : 1, tag = (int64_t) (sstep + 1) << 48;
    mc_assert(v != 0, "%s returned an address outside the symmetric memory", what);
    mc_ghost_set(sstep % 4 * 4 + me, v | tag);
    for (int q = 0; q < n; q++) {
        int64_t w = mc_ghost(sstep % 4 * 4 + q);
        if (w >> 48 == sstep + 1) mc_assert((w ^= tag) == v, w == 1 || v == 1 ? "%s: NULL on one PE but not on another" : "%s: different offsets on two PEs", what);
    }
    sstep++;
}
static void sverify(const char *what)
{
    for (int i = 0; i < snb; i++) for (size_t k = 0; k < SB[i].n; k++) mc_assert(SB[i].p[k] == pat(SB[i].seed, k), "%s changed byte %zu of a live block of %zu bytes", what, k, SB[i].n);
}
static void senter(void *v, size_t n, size_t al, int sp, const char *what)
{
    unsigned char *p = v;
    mc_assert(((uintptr_t) p & (al - 1)) == 0, "%s(%zu): not aligned to %zu", what, n, al);
    for (int q = 0; q < mc_npes(); q++) {
        char *a = mc_remote(p, q), *e = mc_remote(p + n - 1, q);
        mc_assert(a && e && e - a == (long) n - 1, "%s(%zu): the block is not completely inside the space", what, n);
    }
    for (int i = 0; i < snb; i++) mc_assert(p + n <= SB[i].p || SB[i].p + SB[i].n <= p, "%s(%zu): overlaps a live block of %zu bytes", what, n, SB[i].n);
    mc_assert(snb < SMAX, "internal: too many blocks");
    SB[snb] = (sblk_t) { p, n, sstep * 8 + mc_pe(), sp };
    fill(p, n, SB[snb].seed);
    snb++;
    sverify(what);
}
static void sfree(int i, int legacy)
{
    unsigned char *p = SB[i].p;
    for (; i + 1 < snb; i++) SB[i] = SB[i + 1];
    snb--;
    if (legacy) shfree(p); else shmem_free(p);
    sverify("shmem_free");
}
static void sremote(void)
{
    static unsigned char buf[80 * PG], got[80 * PG];
    int me = mc_pe(), n = mc_npes(), to = (me + 1) % n, fr = (me + n - 1) % n;
    shmem_barrier_all();
    for (int i = 0; i < snb; i++) { fill(buf, SB[i].n, 2000 + i * 8 + me); shmem_putmem(SB[i].p, buf, SB[i].n, to); shmem_quiet(); }
    shmem_barrier_all();
    for (int i = 0; i < snb; i++) {
        for (size_t k = 0; k < SB[i].n; k++) mc_assert(SB[i].p[k] == pat(2000 + i * 8 + fr, k), "byte %zu of a block of %zu bytes of a space did not receive the data put to it", k, SB[i].n);
        shmem_getmem(got, SB[i].p, SB[i].n, to);
        for (size_t k = 0; k < SB[i].n; k++) mc_assert(got[k] == pat(2000 + i * 8 + me, k), "byte %zu of a block of %zu bytes of a space was not read back", k, SB[i].n);
    }
    shmem_barrier_all();
    for (int i = 0; i < snb; i++) fill(SB[i].p, SB[i].n, SB[i].seed);
}
/* a free, page aligned gap of n bytes inside the space (given the live blocks, each occupying whole pages) */
static int room(int sp, size_t n, size_t total)
{
    size_t used = 0;
    int cnt = 0;
    for (int i = 0; i < snb; i++) if (SB[i].sp == sp) { used += up(SB[i].n); cnt++; }
    if (cnt == 0) return n <= total;
    for (int i = 0; i < snb; i++) {
        if (SB[i].sp != sp) continue;
        uintptr_t e = (uintptr_t) SB[i].p + up(SB[i].n), nx = UINTPTR_MAX;
        for (int j = 0; j < snb; j++) if (SB[j].sp == sp && (uintptr_t) SB[j].p >= e && (uintptr_t) SB[j].p < nx) nx = (uintptr_t) SB[j].p;
        if (nx != UINTPTR_MAX && nx - e >= up(n)) return 1; /* a sufficient gap between two live blocks */
    }
    (void) used;
    return 0;
}
MC_SCEN(space_seq)
{
    shmem_init();
    int nsp = mc_arg("nsp", 2), depth = mc_arg("depth", 3), sum = 0;
    for (int i = 0; i < nsp; i++) {
        Ssz[i] = i == 0 ? mc_arg("sz", 4096) : 2000;
        shmemx_space_config_t c = { .sheap_size = Ssz[i], .num_contexts = 0, .memkind = SHMEMX_MEM_HOST, .hints = i };
        shmemx_space_create(c, &S[i]);
        shmemx_space_attach(S[i]);
    }
    static const size_t msz[] = { 1, PG, PG + 1, 2 * PG + 100, 3 * PG };
    int nk = mc_arg("aligns", 0) ? 17 : 12;
    for (int s = 0; s < depth; s++) {
        int live = snb < 3 ? snb : 3, na = nk * nsp, c = mc_choose_all(na + live * 2), may_fail = 0;
        sum = sum * 41 + c;
        if (c < na) {
            int sp = c / nk, k = c % nk, zero = 0, must_fail = 0;
            size_t n = 1, al = 16;
            void *p;
            const char *w;
            if (k < 5) { w = "space_malloc"; p = shmemx_space_malloc(S[sp], n = msz[k]); }
            else if (k == 5) { w = "space_calloc"; zero = 1; n = 120; p = shmemx_space_calloc(S[sp], 3, 40); }
            else if (k == 6) { w = "space_calloc"; zero = 1; n = PG + 8; p = shmemx_space_calloc(S[sp], PG + 8, 1); }
            else if (k == 7) { w = "space_align"; p = shmemx_space_align(S[sp], al = 256, n = 10); }
            else if (k == 8) { w = "space_align"; p = shmemx_space_align(S[sp], al = 512, n = PG + 3); }
            else if (k == 9) { w = "space_malloc(0)"; must_fail = 1; p = shmemx_space_malloc(S[sp], 0); }
            else if (k == 10) { w = "space_malloc(space size + 1 page)"; must_fail = 1; p = shmemx_space_malloc(S[sp], up(Ssz[sp]) + 1); }
            else if (k >= 12) { w = "space_align"; al = (size_t[]) { 8, PG / 2, PG, 2 * PG, 4 * PG }[k - 12]; may_fail = al > PG; p = shmemx_space_align(S[sp], al, n = k == 13 ? PG + 1 : 24); }
            else { w = "space_calloc(overflow)"; must_fail = 1; p = shmemx_space_calloc(S[sp], (SIZE_MAX >> 1) + 2, 2); }
            if (must_fail) mc_assert(p == NULL, "%s returned a block", w);
            sx(p, w);
            if (!p && !must_fail && !may_fail) mc_assert(!room(sp, n, Ssz[sp]), "%s(%zu) failed although there is room in the space of %zu bytes", w, n, Ssz[sp]);
            if (p && zero) for (size_t j = 0; j < n; j++) mc_assert(((char *) p)[j] == 0, "space_calloc: byte %zu of %zu is not zero", j, n);
            if (p) senter(p, n, al, sp, w); else sverify(w);
        } else sfree((c - na) / 2, (c - na) % 2);
    }
    if (snb) sremote();
    mc_obs(0, sum);
    while (snb) sfree(0, 0);
    for (int i = 0; i < nsp; i++) {
        void *p = shmemx_space_malloc(S[i], Ssz[i]);
        mc_assert(p, "a space of %zu bytes cannot be allocated as a whole after everything was freed", Ssz[i]);
        senter(p, Ssz[i], 16, i, "space_malloc");
    }
    sremote();
    while (snb) sfree(snb - 1, 0);
    for (int i = nsp - 1; i >= 0; i--) { shmemx_space_detach(S[i]); shmemx_space_destroy(S[i]); }
    shmem_finalize();
}
/* fill a pool, free in several orders and subsets, fill again */
MC_SCEN(space_exhaust)
{
    shmem_init();
    static const size_t szs[] = { 1, PG, PG + 1, 2 * PG, 3 * PG - 1 };
    size_t sz = szs[mc_choose_all(5)], total = 8 * PG;
    int order = mc_choose_all(4), mask = mc_choose_all(16), cnt = 0;
    shmemx_space_config_t c = { .sheap_size = total, .num_contexts = 0, .memkind = SHMEMX_MEM_HOST };
    shmemx_space_create(c, &S[0]);
    shmemx_space_attach(S[0]);
    for (int round = 0; round < 2; round++) {
        int k = 0;
        for (;;) {
            void *p = round ? shmemx_space_calloc(S[0], sz, 1) : shmemx_space_malloc(S[0], sz);
            sx(p, "allocation");
            if (!p) break;
            if (round) for (size_t j = 0; j < sz; j++) mc_assert(((char *) p)[j] == 0, "space_calloc: byte %zu is not zero", j);
            senter(p, sz, 16, 0, "allocation");
            k++;
        }
        mc_assert(k >= 1, "nothing can be allocated");
        if (round) mc_assert(k >= cnt, "only %d blocks fit after freeing, %d before", k, cnt); else cnt = k;
        sremote();
        if (!round) { /* free a subset, each freed place can be used again */
            int fr = 0;
            for (int i = (snb < 4 ? snb : 4) - 1; i >= 0; i--) if (mask >> i & 1) { sfree(i, 0); fr++; }
            for (int i = 0; i < fr; i++) { void *p = shmemx_space_malloc(S[0], sz); sx(p, "space_malloc"); mc_assert(p, "a freed block cannot be allocated again"); senter(p, sz, 16, 0, "space_malloc"); }
            mc_assert(fr == 0 || shmemx_space_malloc(S[0], 3 * PG) == NULL, "a full pool returned a block");
        }
        while (snb) sfree(order == 0 ? 0 : order == 1 ? snb - 1 : order == 2 ? snb / 2 : (snb > 1), 0);
    }
    void *p = shmemx_space_malloc(S[0], total);
    mc_assert(p, "the pool cannot be allocated as a whole after everything was freed");
    senter(p, total, 16, 0, "space_malloc");
    sfree(0, 0);
    shmemx_space_detach(S[0]);
    shmemx_space_destroy(S[0]);
    shmem_finalize();
}

/* pools of many pages: fill with blocks of one size, free every pattern of them, fill again with another size and kind of allocation */
MC_SCEN(space_many)
{
    shmem_init();
    static const int pgs[] = { 1, 2, 3, 5, 9, 17, 33 };
    int np = mc_arg("pages", 40), a = mc_choose_all(NELEM(pgs)), per = 1 + mc_choose_all(3), ph = mc_choose_all(2), b = mc_choose_all(NELEM(pgs)), kind = mc_choose_all(3);
    shmemx_space_config_t c = { .sheap_size = np * PG - 100, .num_contexts = 0, .memkind = SHMEMX_MEM_HOST };
    shmemx_space_create(c, &S[0]);
    shmemx_space_attach(S[0]);
    for (int round = 0; round < 2; round++) {
        size_t sz = (size_t) pgs[round ? b : a] * PG - (round ? 0 : 60);
        for (;;) {
            void *p = !round || kind == 0 ? shmemx_space_malloc(S[0], sz) : kind == 1 ? shmemx_space_calloc(S[0], sz / 8, 8) : shmemx_space_align(S[0], 128, sz);
            sx(p, "allocation");
            if (!p) break;
            if (round && kind == 1) for (size_t j = 0; j < sz; j++) mc_assert(((char *) p)[j] == 0, "space_calloc: byte %zu is not zero", j);
            senter(p, sz, kind == 2 && round ? 128 : 16, 0, "allocation");
            mc_assert(snb <= np, "more blocks than pages");
        }
        mc_assert(!room(0, sz, np * PG), "an allocation of %zu bytes failed although there is room in the space of %d pages", sz, np);
        if (!round) {
            mc_assert(snb == np / pgs[a], "%d blocks of %d pages fit in a pool of %d pages", snb, pgs[a], np);
            for (int i = snb - 1; i >= 0; i--) if ((i + ph) % per == 0) sfree(i, i & 1);
        }
    }
    sremote();
    while (snb) sfree(ph ? 0 : snb - 1, 0);
    void *p = shmemx_space_malloc(S[0], np * PG - 100);
    mc_assert(p, "the pool cannot be allocated as a whole after everything was freed");
    senter(p, np * PG - 100, 16, 0, "space_malloc");
    sremote();
    sfree(0, 0);
    shmemx_space_detach(S[0]);
    shmemx_space_destroy(S[0]);
    shmem_finalize();
}

/* ---- P23: life cycles of several spaces, interleaved with communication on everything ---- */
typedef struct { int st; long *b; shmem_ctx_t cx; int nc; } life_t; /* st: 0 none, 1 created, 2 attached */
static life_t L[3];
MC_SYMM static long lst[8];
static long *lhp;
static int lround;
/* issue one round of operations on b; the results are checked by fin() */
static void ops_on(long *b, int to, shmem_ctx_t cx, int slot)
{
    int me = mc_pe();
    long v[2] = { 1000 * lround + 10 * me + slot, 1000 * lround + 10 * me + slot + 1 };
    if (cx) {
        shmem_ctx_long_put(cx, &b[0], v, 2, to);
        shmem_ctx_long_atomic_add(cx, &b[2], lround + me, to);
        shmem_ctx_long_atomic_set(cx, &b[3], v[0], to);
    } else {
        shmem_long_put(&b[0], v, 2, to);
        shmem_long_atomic_add(&b[2], lround + me, to);
        shmem_long_atomic_set(&b[3], v[0], to);
    }
}
static void fin(long *b, int fr, int slot, long *acc, const char *what)
{
    long e = 1000 * lround + 10 * fr + slot;
    *acc += lround + fr;
    mc_assert(b[0] == e && b[1] == e + 1, "put to %s did not arrive: %ld %ld, expected %ld", what, b[0], b[1], e);
    mc_assert(b[2] == *acc, "atomic add to %s: value is %ld, expected %ld", what, b[2], *acc);
    mc_assert(b[3] == e, "atomic set on %s: value is %ld, expected %ld", what, b[3], e);
}
static long accs[8];
static void comm(int ways, int mid, int k)
{
    int me = mc_pe(), n = mc_npes(), to = (me + 1) % n, fr = (me + n - 1) % n;
    static const char *nm[] = { "static data", "the heap", "space 0", "space 1", "space 2" };
    lround++;
    ops_on(lst, to, 0, 0);
    ops_on(lhp, to, 0, 2);
    for (int i = 0; i < 3; i++) if (L[i].st == 2) ops_on(L[i].b, to, lround % 2 ? L[i].cx : 0, 4 + 2 * i);
    for (int i = 0; i < 3; i++) if (L[i].st == 2 && L[i].cx) { if (ways % 2) shmem_ctx_quiet(L[i].cx); else { shmem_ctx_fence(L[i].cx); shmem_ctx_quiet(L[i].cx); } }
    if (mid == 1) { /* life cycle operation with the communication still pending */
        if (L[k].st == 0) return;
    }
    switch (ways) {
    case 0: shmem_quiet(); shmem_sync_all(); break;
    case 1: shmem_barrier_all(); break;
    case 2: shmem_fence(); shmem_barrier_all(); break;
    }
    fin(lst, fr, 0, &accs[0], nm[0]);
    fin(lhp, fr, 2, &accs[1], nm[1]);
    for (int i = 0; i < 3; i++) if (L[i].st == 2) {
        fin(L[i].b, fr, 4 + 2 * i, &accs[2 + i], nm[2 + i]);
        long g[2] = { 0, 0 };
        shmem_long_get(g, &L[i].b[0], 2, to);
        mc_assert(g[0] == 1000 * lround + 10 * me + 4 + 2 * i && g[1] == g[0] + 1, "get from %s returned %ld %ld", nm[2 + i], g[0], g[1]);
        g[0] = shmem_long_atomic_fetch(&L[i].b[2], to);
        mc_assert(g[0] == accs[2 + i] - lround - fr + lround + me || n > 2 || g[0] == RD(&L[i].b[2], to), "fetch from %s returned %ld", nm[2 + i], g[0]);
    }
    shmem_barrier_all();
}
/* operations possible in the current state: per space create, attach, detach, destroy, and (attached, context) ... */
static void life_op(int i, int op)
{
    switch (op) {
    case 0: {
        shmemx_space_config_t c = { .sheap_size = 1024 + 512 * i, .num_contexts = L[i].nc, .memkind = SHMEMX_MEM_HOST, .hints = i == 1 ? SHMEMX_SPACE_LAT_PREFERRED : 0 };
        shmemx_space_create(c, &S[i]);
        L[i].b = shmemx_space_calloc(S[i], 8, sizeof(long));
        mc_assert(L[i].b, "allocation from a new space failed");
        for (int k = 0; k < 8; k++) mc_assert(L[i].b[k] == 0, "space_calloc is not zero");
        accs[2 + i] = 0;
        L[i].st = 1;
        break; }
    case 1:
        shmemx_space_attach(S[i]);
        if (L[i].nc) mc_assert(shmemx_space_create_ctx(S[i], 0, &L[i].cx) == SHMEM_SUCCESS, "space_create_ctx failed");
        L[i].st = 2;
        break;
    case 2:
        if (L[i].cx) shmem_ctx_destroy(L[i].cx);
        L[i].cx = 0;
        shmemx_space_detach(S[i]);
        L[i].st = 1;
        break;
    case 3:
        shmem_free(L[i].b);
        shmemx_space_destroy(S[i]);
        L[i].st = 0;
        break;
    }
}
static int enabled(int i, int op) { return op == 0 ? L[i].st == 0 : op == 1 ? L[i].st == 1 : op == 2 ? L[i].st == 2 : L[i].st == 1; }
MC_SCEN(space_life)
{
    mc_leakcheck();
    shmem_init();
    int nsp = mc_arg("nsp", 2), depth = mc_arg("depth", 4), me = shmem_my_pe(), n = shmem_n_pes(), sum = 0;
    lhp = shmem_calloc(8, sizeof(long));
    int ncs = mc_choose_all(mc_arg("ctxs", 3)), ways = mc_choose_all(3);
    for (int i = 0; i < 3; i++) L[i].nc = ncs == 0 ? 0 : ncs == 1 ? 1 : 1 - i % 2;
    shmem_barrier_all();
    comm(ways, 0, 0);
    if (mc_arg("warm", 0)) { /* spaces that come and go beforehand */
        life_op(0, 0);
        for (int i = mc_arg("warm", 0); i > 0; i--) { life_op(0, 1); if (i % 4 == 1) comm(ways, 0, 0); life_op(0, 2); }
        life_op(0, 3);
        comm(ways, 0, 0);
    }
    for (int s = 0; s < depth; s++) {
        int list[16][2], c = 0;
        for (int i = 0; i < nsp; i++) for (int o = 0; o < 4; o++) if (enabled(i, o)) { list[c][0] = i; list[c][1] = o; c++; }
        int x = mc_choose_all(c);
        sum = sum * 13 + list[x][0] * 4 + list[x][1];
        /* pending operations while the state changes */
        long pv = 7000 + s * 10 + me;
        shmem_long_p(&lst[5], pv, (me + 1) % n);
        shmem_long_atomic_add(&lhp[5], 1 + me, (me + 1) % n);
        life_op(list[x][0], list[x][1]);
        shmem_barrier_all();
        int fr = (me + n - 1) % n;
        accs[6] += 1 + fr;
        mc_assert(lst[5] == 7000 + s * 10 + fr, "a put pending during a space operation got lost");
        mc_assert(lhp[5] == accs[6], "an atomic pending during a space operation got lost");
        comm(ways, 0, 0);
    }
    mc_obs(0, sum); mc_obs(1, ncs * 3 + ways);
    for (int i = 0; i < nsp; i++) { if (L[i].st == 2) life_op(i, 2); if (L[i].st == 1) life_op(i, 3); }
    comm(ways, 0, 0);
    shmem_free(lhp);
    shmem_finalize();
}
/* interleavings: operations on a space begin as soon as attach returns, and end right before detach */
MC_SCEN(space_explore)
{
    shmem_init();
    int me = shmem_my_pe(), n = shmem_n_pes(), to = (me + 1) % n, fr = (me + n - 1) % n;
    int use = mc_choose_all(5), ctx = mc_choose_all(2), again = mc_arg("again", 0), other = mc_arg("other", 0);
    shmemx_space_config_t c = { .sheap_size = 1024, .num_contexts = ctx, .memkind = SHMEMX_MEM_HOST };
    if (other) { shmemx_space_create(c, &S[1]); shmemx_space_attach(S[1]); }
    shmemx_space_create(c, &S[0]);
    long *b = shmemx_space_calloc(S[0], 4, sizeof(long));
    mc_obs(0, use); mc_obs(1, ctx);
    mc_begin();
    for (int r = 0; r <= again; r++) {
        shmem_ctx_t cx = SHMEM_CTX_DEFAULT;
        shmemx_space_attach(S[0]);
        if (ctx) mc_assert(shmemx_space_create_ctx(S[0], 0, &cx) == SHMEM_SUCCESS, "space_create_ctx failed");
        long v = 50 + me + r;
        switch (use) {
        case 0: shmem_ctx_long_put(cx, &b[0], &v, 1, to); break;
        case 1: shmem_ctx_long_atomic_set(cx, &b[0], v, to); break;
        case 2: shmem_ctx_long_p(cx, &b[0], v, to); shmem_ctx_fence(cx); shmem_ctx_long_atomic_add(cx, &b[1], 1, to); break;
        case 3: mc_assert(shmem_ctx_long_atomic_swap(cx, &b[0], v, to) == (r ? 50 + me + r - 1 : 0), "swap on a space returned a wrong value"); break;
        case 4: { long g = shmem_ctx_long_g(cx, &b[2], to); mc_assert(g == 0, "get from a new block returned %ld", g); shmem_ctx_long_put_nbi(cx, &b[0], &v, 1, to); shmem_ctx_quiet(cx); break; }
        }
        if (ctx) { shmem_ctx_quiet(cx); shmem_ctx_destroy(cx); }
        shmemx_space_detach(S[0]);
        mc_assert(b[0] == 50 + fr + r, "an operation on the space was not complete after detach: %ld, expected %d", b[0], 50 + fr + r);
        if (use == 2) mc_assert(b[1] == r + 1, "an atomic on the space was not complete after detach");
    }
    shmem_barrier_all();
    mc_end();
    shmem_free(b);
    shmemx_space_destroy(S[0]);
    if (other) { shmemx_space_detach(S[1]); shmemx_space_destroy(S[1]); }
    shmem_finalize();
}

/* ---- P24 ---- */
MC_SCEN(ctx_seq)
{
    shmem_init();
    int n1 = mc_choose_all(4), n2 = mc_choose_all(2) + (n1 == 0), depth = mc_arg("depth", 4), me = shmem_my_pe(), n = shmem_n_pes(), sum = 0;
    int nc[2] = { n1, n2 };
    shmem_ctx_t live[2][4];
    int nl[2] = { 0, 0 };
    long *blk[2], add[2] = { 0, 0 };
    for (int i = 0; i < 2; i++) {
        shmemx_space_config_t c = { .sheap_size = 1024, .num_contexts = nc[i], .memkind = SHMEMX_MEM_HOST };
        shmemx_space_create(c, &S[i]);
        shmemx_space_attach(S[i]);
        blk[i] = shmemx_space_calloc(S[i], 8, sizeof(long));
    }
    static const long opts[] = { 0, SHMEM_CTX_SERIALIZED, SHMEM_CTX_PRIVATE, SHMEM_CTX_NOSTORE };
    for (int s = 0; s < depth; s++) {
        int c = mc_choose_all(2 + 3 + nl[0] + nl[1]);
        sum = sum * 13 + c;
        if (c < 2) {
            shmem_ctx_t x = SHMEM_CTX_INVALID;
            int rc = shmemx_space_create_ctx(S[c], opts[s % 4], &x);
            if (nl[c] < nc[c]) {
                mc_assert(rc == SHMEM_SUCCESS, "space_create_ctx failed (%d) with %d of %d contexts in use", rc, nl[c], nc[c]);
                mc_assert(x != SHMEM_CTX_INVALID && x != SHMEM_CTX_DEFAULT, "space_create_ctx succeeded without a context");
                for (int i = 0; i < 2; i++) for (int k = 0; k < nl[i]; k++) mc_assert(live[i][k] != x, "space_create_ctx returned a context that is in use");
                live[c][nl[c]++] = x;
            } else {
                mc_assert(rc == SHMEM_NO_CTX, "space_create_ctx returned %d with all %d contexts in use", rc, nc[c]);
                mc_assert(x == SHMEM_CTX_INVALID, "failed space_create_ctx changed the handle");
            }
        } else if (c < 5) { /* unsupported kinds of contexts */
            shmem_ctx_t x = SHMEM_CTX_INVALID;
            int rc = c == 2 ? shmem_ctx_create(0, &x) : c == 3 ? shmem_ctx_create(SHMEM_CTX_PRIVATE, &x) : shmem_team_create_ctx(SHMEM_TEAM_WORLD, 0, &x);
            mc_assert(rc == SHMEM_NO_CTX || (rc == SHMEM_SUCCESS && x != SHMEM_CTX_INVALID), "context creation returned %d", rc);
            if (rc == SHMEM_SUCCESS) shmem_ctx_destroy(x); else mc_assert(x == SHMEM_CTX_INVALID, "failed context creation changed the handle");
        } else {
            int k = c - 5, i = k >= nl[0];
            if (i) k -= nl[0];
            int tg = (me + 1) % n, r = -1;
            shmem_ctx_long_p(live[i][k], &blk[i][6], 7000 * s + me, tg);
            shmem_ctx_long_atomic_add(live[i][k], &blk[i][7], 1 + s, tg);
            shmem_ctx_int_get_nbi(live[i][k], &r, (int *) &blk[i][5], 1, tg);
            shmem_ctx_destroy(live[i][k]);
            mc_assert(RD(&blk[i][6], tg) == 7000 * s + me && RD(&blk[i][7], tg) == add[i] + 1 + s && r != -1, "operations on a context are not complete after it was destroyed");
            add[i] += 1 + s;
            for (; k + 1 < nl[i]; k++) live[i][k] = live[i][k + 1];
            nl[i]--;
        }
        /* every live context works, on its own space */
        int to = (me + 1) % n, fr = (me + n - 1) % n;
        for (int i = 0; i < 2; i++) for (int k = 0; k < nl[i]; k++) {
            shmem_ctx_long_p(live[i][k], &blk[i][k], 100 * s + 10 * k + me, to);
            shmem_ctx_long_atomic_set(live[i][k], &blk[i][4 + k], 100 * s + 10 * k + me, to);
            shmem_ctx_quiet(live[i][k]);
            mc_assert(RD(&blk[i][k], to) == 100 * s + 10 * k + me && RD(&blk[i][4 + k], to) == 100 * s + 10 * k + me, "operations on context %d of space %d are not complete after its quiet", k, i);
        }
        shmem_barrier_all();
        for (int i = 0; i < 2; i++) for (int k = 0; k < nl[i]; k++) mc_assert(blk[i][k] == 100 * s + 10 * k + fr, "put on a context got lost");
        shmem_barrier_all();
    }
    mc_obs(0, sum); mc_obs(1, n1); mc_obs(2, n2);
    for (int i = 0; i < 2; i++) {
        while (nl[i]) shmem_ctx_destroy(live[i][--nl[i]]);
        shmem_free(blk[i]);
        shmemx_space_detach(S[i]);
        shmemx_space_destroy(S[i]);
    }
    shmem_finalize();
}
/* P24: many contexts on one space: all distinct, each complete on its own quiet, slots reused after any two were destroyed */
MC_SCEN(ctx_many)
{
    static const int nums[] = { 1, 5, 9, 17 };
    shmem_init();
    int N = nums[mc_choose_all(NELEM(nums))], me = shmem_my_pe(), n = shmem_n_pes(), to = (me + 1) % n, op = mc_choose_all(4), other = mc_choose_all(2);
    int cand[] = { 0, 1, N / 2, N - 2, N - 1 }, a = cand[mc_choose_all(5)], b = cand[mc_choose_all(5)], ok = a >= 0 && b >= 0 && a < N && b < N && (a != b || N == 1);
    mc_obs(0, N); mc_obs(1, a * 100 + b); mc_obs(2, op * 2 + other);
    if (ok) {
        shmemx_space_config_t c = { .sheap_size = 2048, .num_contexts = N, .memkind = SHMEMX_MEM_HOST }, c2 = { .sheap_size = 1024, .num_contexts = 2, .memkind = SHMEMX_MEM_HOST };
        shmem_ctx_t x[80], y = SHMEM_CTX_INVALID, z = SHMEM_CTX_INVALID;
        if (other) { shmemx_space_create(c2, &S[1]); shmemx_space_attach(S[1]); mc_assert(shmemx_space_create_ctx(S[1], 0, &z) == SHMEM_SUCCESS, "space_create_ctx failed on another space"); }
        shmemx_space_create(c, &S[0]);
        shmemx_space_attach(S[0]);
        long *blk = shmemx_space_calloc(S[0], 80, sizeof(long));
        for (int i = 0; i < N; i++) {
            x[i] = SHMEM_CTX_INVALID;
            mc_assert(shmemx_space_create_ctx(S[0], i % 3 == 1 ? SHMEM_CTX_PRIVATE : i % 3 == 2 ? SHMEM_CTX_SERIALIZED | SHMEM_CTX_NOSTORE : 0, &x[i]) == SHMEM_SUCCESS && x[i] != SHMEM_CTX_INVALID && x[i] != z,
                      "context %d of %d could not be created", i, N);
            for (int k = 0; k < i; k++) mc_assert(x[k] != x[i], "contexts %d and %d are the same", k, i);
        }
        mc_assert(shmemx_space_create_ctx(S[0], 0, &y) == SHMEM_NO_CTX && y == SHMEM_CTX_INVALID, "more than %d contexts were created", N);
        shmem_barrier_all();
        for (int r = 0; r < 2; r++) {
            for (int i = 0; i < N; i++) {
                long v = 1000 * (r + 1) + 100 * me + i;
                switch ((op + i) % 4) {
                case 0: shmem_ctx_long_p(x[i], &blk[i], v, to); break;
                case 1: shmem_ctx_long_put_nbi(x[i], &blk[i], &v, 1, to); break;
                case 2: shmem_ctx_long_atomic_set(x[i], &blk[i], v, to); break;
                case 3: shmem_ctx_long_iput(x[i], &blk[i], &v, 1, 1, 1, to); break;
                }
                if ((op + i) % 4 == 1 || i == a || i == b || i % 12 == 11) {
                    shmem_ctx_quiet(x[i]);
                    mc_assert(RD(&blk[i], to) == v, "quiet on context %d of %d did not complete its operation", i, N);
                }
            }
            if (r == 1) break;
            shmem_ctx_destroy(x[a]);
            if (a != b) shmem_ctx_destroy(x[b]);
            shmem_ctx_t p = SHMEM_CTX_INVALID, q = SHMEM_CTX_INVALID;
            mc_assert(shmemx_space_create_ctx(S[0], 0, &p) == SHMEM_SUCCESS, "a destroyed context is not available again");
            if (a != b) mc_assert(shmemx_space_create_ctx(S[0], 0, &q) == SHMEM_SUCCESS, "a destroyed context is not available again");
            for (int i = 0; i < N; i++) mc_assert(i == a || i == b || (x[i] != p && x[i] != q), "space_create_ctx returned a context that is in use");
            mc_assert(p != q && shmemx_space_create_ctx(S[0], 0, &y) == SHMEM_NO_CTX && y == SHMEM_CTX_INVALID, "more than %d contexts are in use", N);
            x[a] = p;
            if (a != b) x[b] = q;
            for (int i = 0; i < N; i++) shmem_ctx_quiet(x[i]);
            for (int i = 0; i < N; i++) mc_assert(RD(&blk[i], to) == 1000 + 100 * me + i, "the operation on context %d of %d got lost", i, N);
            shmem_barrier_all();
        }
        for (int i = N - 1; i >= 0; i--) {
            shmem_ctx_destroy(x[i]);
            mc_assert(RD(&blk[i], to) == 2000 + 100 * me + i, "the operation on context %d of %d is not complete after it was destroyed", i, N);
        }
        shmem_barrier_all();
        if (other) { shmem_ctx_destroy(z); shmemx_space_detach(S[1]); shmemx_space_destroy(S[1]); }
        shmem_free(blk);
        shmemx_space_detach(S[0]);
        shmemx_space_destroy(S[0]);
    }
    shmem_finalize();
}
