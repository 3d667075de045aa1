/* P01, P30: data movement of every RMA routine */
#include "scen.h"
#define SZ 256
typedef struct {
    const char *name; int size;
    void (*put)(int, shmem_ctx_t, void *, const void *, size_t, int);
    void (*get)(int, shmem_ctx_t, void *, const void *, size_t, int);
    void (*put_nbi)(int, shmem_ctx_t, void *, const void *, size_t, int);
    void (*get_nbi)(int, shmem_ctx_t, void *, const void *, size_t, int);
    void (*iput)(int, shmem_ctx_t, void *, const void *, ptrdiff_t, ptrdiff_t, size_t, int);
    void (*iget)(int, shmem_ctx_t, void *, const void *, ptrdiff_t, ptrdiff_t, size_t, int);
    void (*p)(int, shmem_ctx_t, void *, const void *, int);
    void (*g)(int, shmem_ctx_t, void *, const void *, int);
} rt_t;
#define W4(F, T, N, S) static void w_##N##_##F(int x, shmem_ctx_t c, void *d, const void *s, size_t n, int pe) { if (x) shmem_ctx_##S(c, (T *) d, (const T *) s, n, pe); else shmem_##S((T *) d, (const T *) s, n, pe); }
#define W6(F, T, N, S) static void w_##N##_##F(int x, shmem_ctx_t c, void *d, const void *s, ptrdiff_t a, ptrdiff_t b, size_t n, int pe) { if (x) shmem_ctx_##S(c, (T *) d, (const T *) s, a, b, n, pe); else shmem_##S((T *) d, (const T *) s, a, b, n, pe); }
#define DEF(T, N) W4(put, T, N, N##_put) W4(get, T, N, N##_get) W4(put_nbi, T, N, N##_put_nbi) W4(get_nbi, T, N, N##_get_nbi) W6(iput, T, N, N##_iput) W6(iget, T, N, N##_iget) \
    static void w_##N##_p(int x, shmem_ctx_t c, void *d, const void *s, int pe) { if (x) shmem_ctx_##N##_p(c, (T *) d, *(const T *) s, pe); else shmem_##N##_p((T *) d, *(const T *) s, pe); } \
    static void w_##N##_g(int x, shmem_ctx_t c, void *d, const void *s, int pe) { if (x) *(T *) d = shmem_ctx_##N##_g(c, (const T *) s, pe); else *(T *) d = shmem_##N##_g((const T *) s, pe); }
#define DEFS(B) W4(put, char, s##B, put##B) W4(get, char, s##B, get##B) W4(put_nbi, char, s##B, put##B##_nbi) W4(get_nbi, char, s##B, get##B##_nbi) W6(iput, char, s##B, iput##B) W6(iget, char, s##B, iget##B)
RMA_TYPES(DEF)
DEFS(8) DEFS(16) DEFS(32) DEFS(64) DEFS(128)
W4(put, char, mem, putmem) W4(get, char, mem, getmem) W4(put_nbi, char, mem, putmem_nbi) W4(get_nbi, char, mem, getmem_nbi)
#define ENT(T, N) { #N, sizeof(T), w_##N##_put, w_##N##_get, w_##N##_put_nbi, w_##N##_get_nbi, w_##N##_iput, w_##N##_iget, w_##N##_p, w_##N##_g },
#define ENTS(B) { "size" #B, B / 8, w_s##B##_put, w_s##B##_get, w_s##B##_put_nbi, w_s##B##_get_nbi, w_s##B##_iput, w_s##B##_iget, 0, 0 },
static const rt_t rt[] = { RMA_TYPES(ENT) ENTS(8) ENTS(16) ENTS(32) ENTS(64) ENTS(128) { "mem", 1, w_mem_put, w_mem_get, w_mem_put_nbi, w_mem_get_nbi, 0, 0, 0, 0 } };
#define NRT NELEM(rt)

MC_SYMM static unsigned char sarr[SZ] __attribute__((aligned(16))) = { 1 };
static unsigned char *harr;
static shmem_ctx_t rma_ctx;
static unsigned char loc[SZ] __attribute__((aligned(16)));
static unsigned char exp_loc[SZ], exp_rem[SZ];
static const struct { int n, dst, sst; } shapes[] = { { 0, 1, 1 }, { 1, 1, 1 }, { 3, 1, 1 }, { 0, 2, 2 }, { 1, 2, 3 }, { 3, 2, 1 }, { 3, 1, 2 }, { 4, 3, 2 }, { 3, 2, 2 } };
enum { K_PUT, K_GET, K_PUTNBI, K_GETNBI, K_IPUT, K_IGET, K_P, K_G, K_A2A, K_A2A32, K_A2A64 };
static const char *kn[] = { "put", "get", "put_nbi", "get_nbi", "iput", "iget", "p", "g", "alltoalls", "alltoalls32", "alltoalls64" };

static int rma_valid(int t, int k, int sh)
{
    const rt_t *r = &rt[t];
    if ((k == K_IPUT || k == K_IGET) && !r->iput) return 0;
    if ((k == K_P || k == K_G) && (!r->p || sh != 0)) return 0;
    if (k < K_IPUT && sh > 2) return 0;
    return 1;
}
static void rma_do(int t, int k, int ctx, int sh, unsigned char *rem, int ro, int lo, int pe)
{
    const rt_t *r = &rt[t];
    int n = shapes[sh].n, d = shapes[sh].dst, s = shapes[sh].sst;
    unsigned char *R = rem + ro * r->size, *L = loc + lo * r->size;
    switch (k) {
    case K_PUT: r->put(ctx, rma_ctx, R, L, n, pe); break;
    case K_GET: r->get(ctx, rma_ctx, L, R, n, pe); break;
    case K_PUTNBI: r->put_nbi(ctx, rma_ctx, R, L, n, pe); break;
    case K_GETNBI: r->get_nbi(ctx, rma_ctx, L, R, n, pe); break;
    case K_IPUT: r->iput(ctx, rma_ctx, R, L, d, s, n, pe); break;
    case K_IGET: r->iget(ctx, rma_ctx, L, R, d, s, n, pe); break;
    case K_P: r->p(ctx, rma_ctx, R, L, pe); break;
    case K_G: r->g(ctx, rma_ctx, L, R, pe); break;
    }
}
/* the reference: element-wise copy */
static void rma_ref(int t, int k, int sh, unsigned char *rem, unsigned char *l, int ro, int lo)
{
    int z = rt[t].size, n = shapes[sh].n, d = 1, s = 1;
    if (k == K_P || k == K_G) n = 1;
    if (k == K_IPUT || k == K_IGET) d = shapes[sh].dst, s = shapes[sh].sst;
    for (int i = 0; i < n; i++) {
        if (k == K_PUT || k == K_PUTNBI || k == K_IPUT || k == K_P) memcpy(rem + (ro + i * d) * z, l + (lo + i * s) * z, z);
        else memcpy(l + (lo + i * d) * z, rem + (ro + i * s) * z, z);
    }
}
static void cmp(int t, int k, const unsigned char *a, const unsigned char *e, int ld0, const char *what, const char *desc)
{
    for (int i = 0; i < SZ; i++) {
        if (ld0 >= 0 && i >= ld0 + 10 && i < ld0 + 16) continue; /* padding of a long double passed by value */
        mc_assert(a[i] == e[i], "%s of %s%s: byte %d of %s is 0x%02x, expected 0x%02x", kn[k], rt[t].name, desc, i, what, a[i], e[i]);
    }
}
MC_SYMM static long fl_s = 0;
MC_SCEN(rma_types)
{
    shmem_init();
    int me = shmem_my_pe(), n = shmem_n_pes();
    int sp = mc_arg("space", 0); /* n: harr lies in the last of n memory spaces, with a context of its own */
    shmemx_space_t spc[3];
    shmem_ctx_t cx = SHMEM_CTX_DEFAULT;
    rma_ctx = SHMEM_CTX_DEFAULT;
    for (int i = 0; i < sp; i++) {
        shmemx_space_config_t c = { .sheap_size = mc_arg("fin", 0) ? 3072 : 1024, .num_contexts = 1 + i, .memkind = SHMEMX_MEM_HOST };
        shmemx_space_create(c, &spc[i]);
        shmemx_space_attach(spc[i]);
        if (i < sp - 1) mc_assert(shmemx_space_malloc(spc[i], 16 + 16 * i) != NULL, "space_malloc failed");
    }
    harr = sp ? shmemx_space_malloc(spc[sp - 1], SZ) : shmem_malloc(SZ);
    int fin = mc_arg("fin", 0); /* completion by: 0 quiet, 1 barrier, 2 fence and a flag put, 3 fence and a flag set atomically */
    long *fl_h = NULL;
    if (fin >= 2) { fl_h = sp ? shmemx_space_malloc(spc[sp - 1], 8) : shmem_malloc(8); *fl_h = fl_s = 0; }
    mc_assert(harr != NULL && (fin < 2 || fl_h), "allocation failed");
    if (sp) mc_assert(shmemx_space_create_ctx(spc[sp - 1], 0, &cx) == SHMEM_SUCCESS, "space_create_ctx failed");
    fill(sarr, SZ, me + 1);
    fill(harr, SZ, me + 11);
    fill(loc, SZ, me + 21);
    shmem_barrier_all();
    if (me == 0) {
        int tsub = mc_arg("tsub", 0); /* restrict to one type of each size for the multi-PE runs */
        int t = mc_choose(NRT);
        int k = mc_choose(8);
        int sh = mc_choose(NELEM(shapes));
        int ok = rma_valid(t, k, sh) && (!tsub || t == 1 || t == 2 || t == 5 || t == 24 || t == 29);
        if (ok) {
            int ctx = mc_choose(2), heap = sp ? 1 : mc_choose(2), pe = mc_choose(n);
            if (sp && ctx) rma_ctx = cx;
            unsigned char *rem = heap ? harr : sarr;
            int z = rt[t].size;
            memcpy(exp_loc, loc, SZ);
            memcpy(exp_rem, mc_remote(rem, pe), SZ);
            rma_ref(t, k, sh, exp_rem, exp_loc, 2, 1);
            rma_do(t, k, ctx, sh, rem, 2, 1, pe);
            if (k == K_GET || k == K_IGET || k == K_G) cmp(t, k, loc, exp_loc, z == 16 && k == K_G ? 16 : -1, "the local buffer at return", "");
            if ((k == K_PUT || k == K_IPUT || k == K_P) && mc_arg("reuse", 0)) { fill(loc, SZ, 77); fill(exp_loc, SZ, 77); }
            if (fin >= 2) {
                long *fl = heap == (fin == 2) ? fl_h : sp ? fl_h : &fl_s;
                shmem_ctx_t fc = sp && ctx ? cx : SHMEM_CTX_DEFAULT;
                if (fc == cx && sp) shmem_ctx_fence(cx); else shmem_fence();
                if (fin == 2) shmem_ctx_long_p(fc, fl, 1, pe); else shmem_ctx_long_atomic_set(fc, fl, 1, pe);
                if (pe == me) shmem_long_wait_until(fl, SHMEM_CMP_NE, 0);
                while (RD(fl, pe) == 0) mc_point();
                if (k == K_GETNBI) { if (fc == cx && sp) shmem_ctx_quiet(cx); else shmem_quiet(); }
            } else if (sp && ctx) shmem_ctx_quiet(cx);
            else if (fin == 1) shmem_barrier_all();
            else shmem_quiet();
            int ld = z == 16 && rt[t].p;
            char desc[80];
            snprintf(desc, sizeof desc, " (n=%d dst=%d sst=%d, %s, to PE %d)", shapes[sh].n, shapes[sh].dst, shapes[sh].sst, sp ? "space" : heap ? "heap" : "static", pe);
            cmp(t, k, loc, exp_loc, ld && k == K_G ? z : -1, "the local buffer", desc);
            for (int q = 0; q < n; q++) {
                unsigned char e[SZ];
                fill(e, SZ, q + 1);
                cmp(t, k, mc_remote(sarr, q), q == pe && !heap ? exp_rem : e, ld && q == pe && !heap && k == K_P ? 2 * z : -1, q == pe ? "static data on the target PE" : "static data on another PE", desc);
                fill(e, SZ, q + 11);
                cmp(t, k, mc_remote(harr, q), q == pe && heap ? exp_rem : e, ld && q == pe && heap && k == K_P ? 2 * z : -1, q == pe ? "the heap on the target PE" : "the heap on another PE", desc);
            }
            if (fin == 1 && !(sp && ctx)) shmem_quiet(); else if (fin == 1) shmem_barrier_all();
        } else if (fin == 1) shmem_barrier_all();
    } else if (fin == 1) shmem_barrier_all();
    shmem_barrier_all();
    if (sp) shmem_ctx_destroy(cx);
    shmem_finalize();
}
/* every history of strided transfers up to a depth, from a small alphabet */
static const struct { int t, k, n, dst, sst; } sal[] = {
    { 6, K_IPUT, 2, 2, 1 }, { 6, K_IPUT, 2, 1, 2 }, { 6, K_IPUT, 3, 2, 2 }, { 5, K_IPUT, 2, 2, 1 }, { 1, K_IPUT, 2, 2, 2 }, { 6, K_IGET, 2, 2, 1 }, { 6, K_IGET, 3, 1, 2 }, { 5, K_IGET, 3, 2, 2 },
    { 6, K_IPUT, 3, 3, 1 }, { 7, K_IPUT, 3, 2, 2 }, { 6, K_IPUT, 2, 3, 3 }, { 0, K_IPUT, 2, 2, 2 }, { 6, K_IPUT, 1, 2, 2 }, { 27, K_IPUT, 2, 2, 1 },
    { 6, K_IPUT, 6, 1, 1 }, { 6, K_IPUT, 3, 1, 1 },
    /* collective strided exchanges of the same shapes: team routine (K_A2A) and the active-set one */
    { 6, K_A2A, 2, 2, 1 }, { 6, K_A2A, 3, 2, 2 }, { 6, K_A2A, 2, 1, 2 }, { 6, K_A2A, 3, 1, 2 }, { 5, K_A2A, 2, 2, 1 }, { 26, K_A2A32, 3, 2, 2 }, { 27, K_A2A64, 2, 2, 1 }
};
MC_SYMM static unsigned char asrc[2 * SZ] __attribute__((aligned(16))) = { 1 }, adst[2 * SZ] __attribute__((aligned(16))) = { 1 };
MC_SYMM static long apsync[2];
static void sal_coll(int a, int i)
{
    int me = shmem_my_pe(), n = shmem_n_pes(), z = rt[sal[a].t].size, m = sal[a].n, dst = sal[a].dst, sst = sal[a].sst;
    unsigned char e[2 * SZ], s[2 * SZ];
    fill(asrc, 2 * SZ, 200 + me); fill(adst, 2 * SZ, 90 + me + i);
    shmem_barrier_all();
    if (sal[a].k == K_A2A32) shmem_alltoalls32(adst, asrc, dst, sst, m, 0, 0, n, apsync);
    else if (sal[a].k == K_A2A64) shmem_alltoalls64(adst, asrc, dst, sst, m, 0, 0, n, apsync);
    else if (z == 4) shmem_int_alltoalls(SHMEM_TEAM_WORLD, (int *) adst, (int *) asrc, dst, sst, m);
    else shmem_short_alltoalls(SHMEM_TEAM_WORLD, (short *) adst, (short *) asrc, dst, sst, m);
    fill(e, 2 * SZ, 90 + me + i);
    for (int q = 0; q < n; q++) { fill(s, 2 * SZ, 200 + q); for (int j = 0; j < m; j++) memcpy(e + (q * m + j) * dst * z, s + (me * m + j) * sst * z, z); }
    for (int k = 0; k < 2 * SZ; k++) mc_assert(adst[k] == e[k], "alltoalls of %s (n=%d dst=%d sst=%d) in a history of strided transfers: byte %d on PE %d is 0x%02x, expected 0x%02x", rt[sal[a].t].name, m, dst, sst, k, me, adst[k], e[k]);
}
MC_SCEN(rma_strided_history)
{
    shmem_init();
    int me = shmem_my_pe(), n = shmem_n_pes(), depth = mc_arg("depth", 3), alpha = mc_arg("alpha", NELEM(sal)), rep = mc_arg("prefill", 0), heap = mc_arg("heap", 0);
    harr = shmem_malloc(SZ);
    unsigned char *rem = heap ? harr : sarr;
    fill(sarr, SZ, me + 1);
    fill(harr, SZ, me + 1);
    fill(loc, SZ, me + 21);
    shmem_barrier_all();
    int pe = mc_arg("self", 0) ? 0 : n - 1;
    memcpy(exp_loc, loc, SZ);
    memcpy(exp_rem, mc_remote(rem, pe), SZ);
    for (int i = 0; i < depth + rep; i++) {
        int a = i < rep ? i % NELEM(sal) : mc_choose_all(alpha);
        if (sal[a].k >= K_A2A) sal_coll(a, i);
        shmem_barrier_all();
        if (sal[a].k >= K_A2A) continue;
        if (me != 0) { shmem_barrier_all(); continue; }
        const rt_t *r = &rt[sal[a].t];
        int z = r->size;
        unsigned char *R = rem + (2 + i % 3) * z, *L = loc + (1 + i % 2) * z;
        for (int j = 0; j < sal[a].n; j++)
            if (sal[a].k == K_IPUT) memcpy(exp_rem + (R - rem) + j * sal[a].dst * z, exp_loc + (L - loc) + j * sal[a].sst * z, z);
            else memcpy(exp_loc + (L - loc) + j * sal[a].dst * z, exp_rem + (R - rem) + j * sal[a].sst * z, z);
        if (sal[a].k == K_IPUT) r->iput(i & 1, SHMEM_CTX_DEFAULT, R, L, sal[a].dst, sal[a].sst, sal[a].n, pe);
        else r->iget(i & 1, SHMEM_CTX_DEFAULT, L, R, sal[a].dst, sal[a].sst, sal[a].n, pe);
        if (sal[a].k == K_IGET) cmp(sal[a].t, sal[a].k, loc, exp_loc, -1, "the local buffer at return", " in a history of strided transfers");
        if (i >= rep || (i & 7) == 7 || i == rep - 1) {
            shmem_quiet();
            cmp(sal[a].t, sal[a].k, loc, exp_loc, -1, "the local buffer", " in a history of strided transfers");
            cmp(sal[a].t, sal[a].k, mc_remote(rem, pe), exp_rem, -1, "the target", " in a history of strided transfers");
        } else shmem_quiet();
        shmem_barrier_all();
    }
    shmem_barrier_all();
    shmem_finalize();
    mc_leakcheck();
}
/* the first and the last bytes of the static memory, the heap and a space */
extern char symm_first[64], symm_last[61];
MC_SCEN(rma_edges)
{
    shmem_init();
    int me = shmem_my_pe(), n = shmem_n_pes(), to = (me + 1) % n, fr = (me + n - 1) % n;
    shmemx_space_config_t c = { .sheap_size = 1000, .num_contexts = 0, .memkind = SHMEMX_MEM_HOST };
    shmemx_space_t s;
    shmemx_space_create(c, &s);
    shmemx_space_attach(s);
    size_t hn = 3000;
    while (hn < (1 << 20)) { char *p = shmem_malloc(hn + 64); if (!p) break; shmem_free(p); hn += 64; }
    char *h = shmem_malloc(hn), *sp = shmemx_space_malloc(s, 1000);
    mc_assert(h && sp, "allocation of %zu bytes failed", hn);
    struct { char *p; const char *w; } e[] = { { symm_first, "the first byte of the static memory" }, { symm_last + 60, "the last byte of the static memory" }, { h, "the first byte of the largest heap block" }, { h + hn - 1, "the last byte of the largest heap block" }, { sp, "the first byte of a space" }, { sp + 999, "the last byte of a space" } };
    int i = mc_choose_all(6), k = mc_choose_all(8);
    char *p = e[i].p, v = 50 + me, r = -1, x[40];
    int back = i & 1 ? 39 : 0;
    *p = 10 + me;
    memset(x, 60 + me, 40);
    shmem_barrier_all();
    int put = 1;
    switch (k) {
    case 0: shmem_char_put(p, &v, 1, to); break;
    case 1: shmem_putmem_nbi(p - back, x, 40, to); v = 60 + me; break;
    case 2: shmem_char_p(p, v, to); break;
    case 3: shmem_char_iput(p - back, x, 3, 1, 14, to); v = 60 + me; break;
    case 4: shmem_char_get(&r, p, 1, to); put = 0; break;
    case 5: shmem_getmem_nbi(x, p - back, 40, to); shmem_quiet(); r = x[back]; put = 0; break;
    case 6: r = shmem_char_g(p, to); put = 0; break;
    case 7: shmem_char_iget(x, p - back, 1, 3, 14, to); r = x[back / 3]; put = 0; break;
    }
    if (!put) mc_assert(r == 10 + to, "%s: read %d, expected %d", e[i].w, r, 10 + to);
    shmem_barrier_all();
    if (put) mc_assert(*p == v - me + fr, "%s: %d after a put, expected %d", e[i].w, *p, v - me + fr);
    shmem_barrier_all();
    shmem_free(sp);
    shmemx_space_detach(s);
    shmemx_space_destroy(s);
    shmem_finalize();
}
/* shapes that look alike: equal products, sums, byte strides or extents, or the same value modulo a power of two; after a warm-up over many distinct shapes */
#define WZ 16384
MC_SYMM static unsigned char wst[WZ] __attribute__((aligned(16))) = { 1 };
static unsigned char wloc[WZ] __attribute__((aligned(16))), wexp[WZ];
static const struct { int t, n, st; } wal[] = {
    { 6, 4, 6 }, { 6, 6, 4 }, { 6, 8, 3 }, { 6, 12, 2 }, { 6, 2, 12 }, { 6, 3, 8 }, { 6, 4, 7 }, { 6, 5, 6 },
    { 6, 4, 22 }, { 6, 4, 38 }, { 6, 4, 70 }, { 6, 4, 134 }, { 6, 4, 262 }, { 6, 4, 518 }, { 6, 4, 1030 },
    { 6, 20, 6 }, { 6, 36, 6 }, { 6, 68, 6 }, { 6, 132, 6 }, { 6, 260, 6 }, { 6, 516, 6 },
    { 5, 4, 12 }, { 7, 4, 3 }, { 5, 8, 6 }, { 7, 2, 6 }, { 3, 4, 24 }, { 25, 4, 12 }, { 26, 4, 6 }, { 27, 4, 6 }, { 5, 4, 6 }, { 6, 8, 6 }, { 7, 4, 6 },
};
static void wide_one(int t, int put, int rs, int n, int st, int i, int pe, const char *when)
{
    const rt_t *r = &rt[t];
    long z = r->size, lo = (i % 3) * z, ro = (1 + i % 2) * z, rst = rs ? st : 1, lst = rs ? 1 : st;
    mc_assert(ro + ((n - 1) * rst + 1) * z <= WZ && lo + ((n - 1) * lst + 1) * z <= WZ, "internal: the shape does not fit");
    unsigned char *R = mc_remote(wst, pe), *OUT = put ? R : wloc, *IN = put ? wloc : R;
    long oo = put ? ro : lo, io = put ? lo : ro, os = put ? rst : lst, is = put ? lst : rst;
    for (long j = 0; j < n * z; j++) IN[io + j / z * is * z + j % z] = pat(3 * i + 1, j);
    memcpy(wexp, OUT, WZ);
    for (long j = 0; j < n; j++) memcpy(wexp + oo + j * os * z, IN + io + j * is * z, z);
    if (put) r->iput(i & 1, SHMEM_CTX_DEFAULT, wst + ro, wloc + lo, rst, lst, n, pe);
    else r->iget(i & 1, SHMEM_CTX_DEFAULT, wloc + lo, wst + ro, lst, rst, n, pe);
    shmem_quiet();
    for (long k = 0; k < WZ; k++) mc_assert(OUT[k] == wexp[k], "%s of %d elements of %s (target stride %d, source stride %d) %s: byte %ld is 0x%02x, expected 0x%02x", put ? "iput" : "iget", n, r->name, put ? (int) rst : (int) lst, put ? (int) lst : (int) rst, when, k, OUT[k], wexp[k]);
}
MC_SCEN(rma_strided_wide)
{
    shmem_init();
    int me = shmem_my_pe(), n = shmem_n_pes(), depth = mc_arg("depth", 2), distinct = mc_arg("distinct", 0), near = mc_arg("near", 1), i = 0;
    int pe = mc_arg("self", 0) ? 0 : n - 1;
    fill(wst, WZ, me + 1); fill(wloc, WZ, me + 21);
    shmem_barrier_all();
    if (me == 0) {
        /* warm-up: distinct (type, count, stride) triples, then the first ones again */
        for (int k = 0; k < distinct; k++, i++) {
            int t = (int[]) { 6, 5, 7 }[k / 512 % 3];
            wide_one(t, k & 1, k >> 1 & 1, 2 + k % 32, 2 + k / 32 % 16, i, pe, "as one of many distinct shapes");
        }
        for (int k = 0; distinct && k < 8; k++, i++) wide_one(6, k & 1, k >> 1 & 1, 2 + k % 32, 2 + k / 32 % 16, i, pe, "after many other shapes");
        int a0 = -1;
        for (int d = 0; d < depth; d++) {
            int a = mc_choose(NELEM(wal)), how = d == 0 ? mc_choose(2) : mc_choose(near ? 4 : 2);
            char when[80];
            if (d) snprintf(when, sizeof when, "after one of %d elements of %s with stride %d", wal[a0].n, rt[wal[a0].t].name, wal[a0].st); else strcpy(when, "alone");
            wide_one(wal[a].t, how & 1, how >> 1 & 1, wal[a].n, wal[a].st, i++, pe, when);
            a0 = a;
        }
    }
    shmem_barrier_all();
    shmem_finalize();
    mc_leakcheck();
}
#ifdef MC_VARIANT_BIG
/* transfer sizes and displacements up to a large bound: every count around a power of two */
#define BIG (128 << 10)
MC_SYMM static unsigned char bstat[BIG] __attribute__((aligned(16))) = { 1 };
static unsigned char bloc[BIG] __attribute__((aligned(16)));
MC_SCEN(rma_sizes)
{
    static const int types[] = { 3, 5, 6, 7, 2, 29 }; /* char, short, int, long, long double, mem */
    shmem_init();
    int me = shmem_my_pe(), n = shmem_n_pes(), full = mc_arg("full", 1);
    unsigned char *bh = shmem_malloc(BIG);
    mc_assert(bh != NULL, "shmem_malloc(%d) failed", BIG);
    fill(bstat, BIG, me + 1);
    fill(bh, BIG, me + 11);
    shmem_barrier_all();
    if (me == 0) {
        int t = types[mc_choose(NELEM(types))], k = mc_choose(K_P), e = mc_choose(18), dd = mc_choose(3) - 1, heap = mc_choose(2), far = mc_choose(2);
        const rt_t *r = &rt[t];
        int dst = 1, sst = 1, pe = n - 1, ok = k < K_IPUT || r->iput;
        long cnt = (1L << e) + dd, z = r->size, span;
        if (k >= K_IPUT) { int st = mc_choose(full ? 5 : 2); dst = st == 4 ? 1 : 1 + (st & 1) + (st >> 1) * 6; sst = st == 4 ? 1 : 2 - (st & 1) + (st >> 1) * 31; if (st == 4 && e < 15) ok = 0; }
        span = (cnt - 1) * (dst > sst ? dst : sst) * z + z;
        if (dd && e < 2 - (dd > 0)) ok = 0; /* duplicates */
        if (cnt < 1 || span + 3 * z > BIG) ok = 0;
        if (!full && e > 13 && k >= K_IPUT) ok = 0;
        if (ok) {
            unsigned char *rem = heap ? bh : bstat;
            long ro = far ? (BIG - span) / z * z : 2 * z, lo = z;
            fill(bloc, BIG, 21);
            if (k == K_PUT || k == K_PUTNBI || k == K_IPUT) {
                if (k == K_PUT) r->put(0, SHMEM_CTX_DEFAULT, rem + ro, bloc + lo, cnt, pe);
                else if (k == K_PUTNBI) r->put_nbi(0, SHMEM_CTX_DEFAULT, rem + ro, bloc + lo, cnt, pe);
                else r->iput(0, SHMEM_CTX_DEFAULT, rem + ro, bloc + lo, dst, sst, cnt, pe);
            } else {
                if (k == K_GET) r->get(0, SHMEM_CTX_DEFAULT, bloc + lo, rem + ro, cnt, pe);
                else if (k == K_GETNBI) r->get_nbi(0, SHMEM_CTX_DEFAULT, bloc + lo, rem + ro, cnt, pe);
                else r->iget(0, SHMEM_CTX_DEFAULT, bloc + lo, rem + ro, dst, sst, cnt, pe);
            }
            if (mc_arg("reuse", 0)) { /* blocking put: the source may be overwritten at once; blocking get: the data is there at once */
                if (k == K_PUT || k == K_IPUT) for (long i = 0; i < BIG; i++) bloc[i] = ~bloc[i];
                if (k == K_GET || k == K_IGET) { const unsigned char *in = mc_remote(rem, pe); for (long i = 0; i < cnt; i++) mc_assert(!memcmp(bloc + lo + i * dst * z, in + ro + i * sst * z, z), "%s of %ld elements of %s (dst=%d sst=%d) returned before element %ld arrived", kn[k], cnt, r->name, dst, sst, i); }
            }
            shmem_quiet();
            if (mc_arg("reuse", 0) && (k == K_PUT || k == K_IPUT)) for (long i = 0; i < BIG; i++) bloc[i] = ~bloc[i];
            /* walk over both sides: byte i belongs to element j iff it lies at the element's place */
            int put = k == K_PUT || k == K_PUTNBI || k == K_IPUT;
            const unsigned char *out = put ? mc_remote(rem, pe) : bloc, *in = put ? bloc : (unsigned char *) mc_remote(rem, pe);
            long oo = put ? ro : lo, io = put ? lo : ro;
            int old = put ? (heap ? pe + 11 : pe + 1) : 21, src = put ? 21 : (heap ? pe + 11 : pe + 1);
            for (long i = 0; i < BIG; i++) {
                long d = i - oo, el = d / (dst * z), b = d - el * dst * z;
                unsigned char x = d >= 0 && el < cnt && b < z ? pat(src, io + el * sst * z + b) : pat(old, i);
                mc_assert(out[i] == x, "%s of %ld elements of %s (dst=%d sst=%d, %s, displacement %ld) to PE %d: byte %ld is 0x%02x, expected 0x%02x", kn[k], cnt, r->name, dst, sst, heap ? "heap" : "static", ro, pe, i, out[i], x);
            }
            for (long i = 0; i < BIG; i++) mc_assert(in[i] == pat(src, i), "%s of %ld elements of %s changed its source", kn[k], cnt, r->name);
        }
    }
    shmem_barrier_all();
    shmem_finalize();
}
#endif
