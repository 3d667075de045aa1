/* P14 broadcast, P15 collect, P16 alltoall, P17 reductions: every type, set, root, size */
#include "setup.h"
#define CB 512
MC_SYMM static unsigned char csrc[CB] __attribute__((aligned(16))) = { 1 }, cdst[CB] __attribute__((aligned(16))) = { 1 };
MC_SYMM static long cps[4];
static unsigned char *hsrc, *hdst;
typedef struct { const char *name; int size;
    int (*bc)(shmem_team_t, void *, const void *, size_t, int); int (*co)(shmem_team_t, void *, const void *, size_t); int (*fc)(shmem_team_t, void *, const void *, size_t);
    int (*aa)(shmem_team_t, void *, const void *, size_t); int (*as)(shmem_team_t, void *, const void *, ptrdiff_t, ptrdiff_t, size_t); } ct_t;
#define CT(T, N) static int c_##N##_bc(shmem_team_t t, void *d, const void *s, size_t n, int r) { return shmem_##N##_broadcast(t, (T *) d, (const T *) s, n, r); } \
    static int c_##N##_co(shmem_team_t t, void *d, const void *s, size_t n) { return shmem_##N##_collect(t, (T *) d, (const T *) s, n); } \
    static int c_##N##_fc(shmem_team_t t, void *d, const void *s, size_t n) { return shmem_##N##_fcollect(t, (T *) d, (const T *) s, n); } \
    static int c_##N##_aa(shmem_team_t t, void *d, const void *s, size_t n) { return shmem_##N##_alltoall(t, (T *) d, (const T *) s, n); } \
    static int c_##N##_as(shmem_team_t t, void *d, const void *s, ptrdiff_t a, ptrdiff_t b, size_t n) { return shmem_##N##_alltoalls(t, (T *) d, (const T *) s, a, b, n); }
RMA_TYPES(CT)
#define CTE(T, N) { #N, sizeof(T), c_##N##_bc, c_##N##_co, c_##N##_fc, c_##N##_aa, c_##N##_as },
/* the last two are the active-set routines for 32 and 64 bits, marked by bc == NULL */
static const ct_t ct[] = { RMA_TYPES(CTE) { "mem", 1, shmem_broadcastmem, shmem_collectmem, shmem_fcollectmem, shmem_alltoallmem, shmem_alltoallsmem }, { "32", 4 }, { "64", 8 } };
#define NCT NELEM(ct)
static int cseed; /* distinguishes the data of successive collectives */
enum { C_BCAST, C_COLLECT, C_FCOLLECT, C_A2A, C_A2AS };
static const char *ckn[] = { "broadcast", "collect", "fcollect", "alltoall", "alltoalls" };

/* a participating group: a team or an active set */
typedef struct { int aset, size, rank, pe[9]; set_t s; shmem_team_t team; } grp_t;
static void grp_make(grp_t *g, int kind, set_t s)
{
    int me = shmem_my_pe(), n = shmem_n_pes();
    memset(g, 0, sizeof *g);
    g->s = s;
    g->aset = kind == 0;
    if (kind == 1) { g->team = SHMEM_TEAM_WORLD; g->s = s = (set_t) { 0, 0, n }; }
    if (kind == 2) mc_assert(shmem_team_split_strided(SHMEM_TEAM_WORLD, s.start, 1 << s.log, s.size, NULL, 0, &g->team) == 0, "team split failed");
    if (kind == 3) { g->team = SHMEM_TEAM_SHARED; int k = shmem_team_n_pes(SHMEM_TEAM_SHARED); g->size = k; for (int i = 0; i < k; i++) g->pe[i] = me / k * k + i; g->rank = me % k; return; }
    g->size = s.size;
    g->rank = set_rank(s, me);
    for (int i = 0; i < s.size; i++) g->pe[i] = set_pe(s, i);
}
static void grp_free(grp_t *g, int kind) { if (kind == 2 && g->team != SHMEM_TEAM_INVALID) shmem_team_destroy(g->team); }
static void coll_call(const ct_t *c, int k, const grp_t *g, void *d, const void *s, int n, int root, int dst, int sst)
{
    int rc = 0;
    if (!g->aset) {
        switch (k) {
        case C_BCAST: rc = c->bc(g->team, d, s, n, root); break;
        case C_COLLECT: rc = c->co(g->team, d, s, n); break;
        case C_FCOLLECT: rc = c->fc(g->team, d, s, n); break;
        case C_A2A: rc = c->aa(g->team, d, s, n); break;
        case C_A2AS: rc = c->as(g->team, d, s, dst, sst, n); break;
        }
        mc_assert(rc == 0, "%s %s returned %d", c->name, ckn[k], rc);
        return;
    }
    int a = g->s.start, l = g->s.log, z = g->s.size;
    if (c->size == 4) switch (k) {
        case C_BCAST: shmem_broadcast32(d, s, n, root, a, l, z, cps); break;
        case C_COLLECT: shmem_collect32(d, s, n, a, l, z, cps); break;
        case C_FCOLLECT: shmem_fcollect32(d, s, n, a, l, z, cps); break;
        case C_A2A: shmem_alltoall32(d, s, n, a, l, z, cps); break;
        case C_A2AS: shmem_alltoalls32(d, s, dst, sst, n, a, l, z, cps); break;
    } else switch (k) {
        case C_BCAST: shmem_broadcast64(d, s, n, root, a, l, z, cps); break;
        case C_COLLECT: shmem_collect64(d, s, n, a, l, z, cps); break;
        case C_FCOLLECT: shmem_fcollect64(d, s, n, a, l, z, cps); break;
        case C_A2A: shmem_alltoall64(d, s, n, a, l, z, cps); break;
        case C_A2AS: shmem_alltoalls64(d, s, dst, sst, n, a, l, z, cps); break;
    }
}
/* expected destination of participant r (buffers were filled with pattern 1+pe / 31+pe) */
static void coll_ref(const ct_t *c, int k, const grp_t *g, int r, unsigned char *e, const int *nn, int root, int dst, int sst)
{
    int z = c->size;
    unsigned char s[CB];
    fill(e, CB, 31 + cseed + g->pe[r]);
    int pos = 0;
    for (int q = 0; q < g->size; q++) {
        fill(s, CB, 1 + cseed + g->pe[q]);
        switch (k) {
        case C_BCAST: if (q == root && !(g->aset && r == root)) memcpy(e, s, nn[0] * z); break;
        case C_COLLECT: case C_FCOLLECT: memcpy(e + pos, s, nn[q] * z); pos += nn[q] * z; break;
        case C_A2A: memcpy(e + q * nn[0] * z, s + r * nn[0] * z, nn[0] * z); break;
        case C_A2AS: for (int i = 0; i < nn[0]; i++) memcpy(e + (q * nn[0] + i) * dst * z, s + (r * nn[0] + i) * sst * z, z); break;
        }
    }
}
static void coll_check(const ct_t *c, int k, const grp_t *g, const unsigned char *d, const unsigned char *s, const int *nn, int root, int dst, int sst, const char *when)
{
    unsigned char e[CB];
    int me = shmem_my_pe();
    if (g->rank >= 0) coll_ref(c, k, g, g->rank, e, nn, root, dst, sst); else fill(e, CB, 31 + cseed + me);
    for (int i = 0; i < CB; i++) mc_assert(d[i] == e[i], "%s_%s (%s of %d PEs, root %d, n=%d,%d, dst=%d, sst=%d): byte %d of the destination on %s %d is 0x%02x, expected 0x%02x %s", c->name, ckn[k], g->aset ? "active set" : "team", g->size, root, nn[0], nn[g->size - 1], dst, sst, i, g->rank >= 0 ? "participant" : "non-participant PE", g->rank >= 0 ? g->rank : me, d[i], e[i], when);
    fill(e, CB, 1 + cseed + me);
    mc_assert(!memcmp(e, s, CB), "%s_%s changed its source %s", c->name, ckn[k], when);
}
static void coll_run(int k)
{
    shmem_init();
    int me = shmem_my_pe(), n = shmem_n_pes(), explore = mc_arg("explore", 0), few = mc_arg("few", 0);
    int t = few ? (int[]) { 5, 7, 25, 26 }[mc_choose_all(4)] : mc_choose_all(NCT);
    const ct_t *c = &ct[t];
    int aset = !c->bc, kind = aset ? 0 : 1 + mc_choose_all(3);
    set_t all[96], s = { 0, 0, n };
    int na = sets_all(n, all), nn[9], root = 0, dst = 1, sst = 1;
    if (kind == 0 || kind == 2) s = all[mc_choose_all(na)];
    int heap = few ? 0 : mc_choose_all(2);
    hsrc = shmem_malloc(CB); hdst = shmem_malloc(CB);
    mc_assert(hsrc && hdst, "shmem_malloc failed");
    unsigned char *d = heap ? hdst : cdst, *src = heap ? hsrc : csrc;
    fill(d, CB, 31 + me);
    fill(src, CB, 1 + me);
    grp_t g;
    grp_make(&g, kind, s);
    if (k == C_BCAST) root = mc_choose_all(g.size);
    int m = mc_choose_all(k == C_A2AS ? 2 : 3) + (k == C_A2AS || few); /* elements */
    if (m == 2 && k != C_A2AS) m = 3;
    for (int i = 0; i < g.size; i++) nn[i] = m;
    if (k == C_COLLECT) for (int i = 1; i < g.size; i++) nn[i] = (int[]) { m, 0, 2, 1 }[mc_choose_all(few || c->size == 16 ? 2 : i == 1 ? 4 : 3)];
    if (k == C_A2AS) { dst = 1 + mc_choose_all(few ? 2 : 3); sst = 1 + mc_choose_all(few ? 2 : 3); if (16 < c->size * m * (dst > sst ? dst : sst) * g.size / 8 * 2 && 0) return; }
    shmem_barrier_all();
    if (explore) mc_begin();
    if (g.rank >= 0) {
        coll_call(c, k, &g, d, src, nn[g.rank], root, dst, sst);
        coll_check(c, k, &g, d, src, nn, root, dst, sst, "at return");
    }
    shmem_barrier_all();
    if (explore) mc_end();
    coll_check(c, k, &g, d, src, nn, root, dst, sst, "after all PEs returned");
    grp_free(&g, kind);
    shmem_finalize();
}
/* source and destination may lie right next to each other */
static unsigned char *adj;
static void coll_adj_run(int k)
{
    shmem_init();
    int me = shmem_my_pe(), n = shmem_n_pes(), t = mc_choose_all(NCT), gap = mc_choose_all(3), first = mc_choose_all(2), m = 1 + 2 * mc_choose_all(2), root = 0;
    const ct_t *c = &ct[t];
    int z = c->size, kind = c->bc ? 1 : 0, nn[9], dst = 1, sst = 1;
    adj = shmem_malloc(CB * 2);
    grp_t g;
    grp_make(&g, kind, (set_t) { 0, 0, n });
    if (k == C_BCAST) root = mc_choose_all(n);
    if (k == C_A2AS) { dst = 1 + mc_choose_all(2) * 2; sst = 1 + mc_choose_all(2); }
    for (int i = 0; i < n; i++) nn[i] = m + (k == C_COLLECT ? i % 2 : 0);
    int tot = 0;
    for (int i = 0; i < n; i++) tot += nn[i];
    /* sizes in bytes of the source on this PE and of the destination; the last strided element ends the object */
    int sb = z * (k == C_BCAST || k == C_COLLECT || k == C_FCOLLECT ? nn[me] : k == C_A2A ? tot : (tot - 1) * sst + 1);
    int db = z * (k == C_BCAST ? m : k == C_A2AS ? (tot - 1) * dst + 1 : tot);
    int smax = z * (k == C_COLLECT ? m + 1 : sb / z);
    if (smax + db + gap * z <= CB * 2 && smax <= CB && db <= CB) {
        unsigned char e[CB * 2], x[CB], *S = adj + (first ? db + gap * z : k == C_COLLECT ? smax - sb : 0), *D = adj + (first ? 0 : smax + gap * z);
        fill(adj, CB * 2, 31 + me);
        fill(x, CB, 1 + me); memcpy(S, x, sb);
        fill(x, CB, 31 + me); memcpy(D, x, db);
        memcpy(e, adj, CB * 2);
        shmem_barrier_all();
        cseed = 0;
        coll_call(c, k, &g, D, S, nn[me], root, dst, sst);
        coll_ref(c, k, &g, me, x, nn, root, dst, sst);
        memcpy(e + (D - adj), x, db);
        for (int i = 0; i < CB * 2; i++) mc_assert(adj[i] == e[i], "%s_%s of %d elements with its source (%d bytes) at %d and its destination (%d bytes) at %d: byte %d on PE %d is 0x%02x, expected 0x%02x", c->name, ckn[k], nn[me], sb, (int) (S - adj), db, (int) (D - adj), i, me, adj[i], e[i]);
    }
    shmem_barrier_all();
    shmem_finalize();
}
MC_SCEN(coll_adj) { coll_adj_run(mc_arg("kind", 0)); }
MC_SCEN(coll_bcast) { coll_run(C_BCAST); }
MC_SCEN(coll_collect) { coll_run(C_COLLECT); }
MC_SCEN(coll_fcollect) { coll_run(C_FCOLLECT); }
MC_SCEN(coll_a2a) { coll_run(C_A2A); }
MC_SCEN(coll_a2as) { coll_run(C_A2AS); }

/* ---- P17 */
enum { R_AND, R_OR, R_XOR, R_MIN, R_MAX, R_SUM, R_PROD };
static const char *rn[] = { "and", "or", "xor", "min", "max", "sum", "prod" };
typedef struct { const char *name; int size, cls; /* 0 unsigned 1 signed 2 float 3 double 4 long double 5 cfloat 6 cdouble */
    int (*team)(int op, shmem_team_t t, void *d, const void *s, size_t n); int (*aset)(int op, void *d, const void *s, int n, int a, int b, int c, void *w, long *p); } red_t;
MC_SYMM static double _Complex pwrk[64];
#define TB(N) case R_AND: return shmem_##N##_and_reduce(t, d, s, n); case R_OR: return shmem_##N##_or_reduce(t, d, s, n); case R_XOR: return shmem_##N##_xor_reduce(t, d, s, n);
#define TM(N) case R_MIN: return shmem_##N##_min_reduce(t, d, s, n); case R_MAX: return shmem_##N##_max_reduce(t, d, s, n);
#define TS(N) case R_SUM: return shmem_##N##_sum_reduce(t, d, s, n); case R_PROD: return shmem_##N##_prod_reduce(t, d, s, n);
#define AB(N) case R_AND: shmem_##N##_and_to_all(d, s, n, a, b, c, w, p); return 0; case R_OR: shmem_##N##_or_to_all(d, s, n, a, b, c, w, p); return 0; case R_XOR: shmem_##N##_xor_to_all(d, s, n, a, b, c, w, p); return 0;
#define AM_(N) case R_MIN: shmem_##N##_min_to_all(d, s, n, a, b, c, w, p); return 0; case R_MAX: shmem_##N##_max_to_all(d, s, n, a, b, c, w, p); return 0;
#define AS(N) case R_SUM: shmem_##N##_sum_to_all(d, s, n, a, b, c, w, p); return 0; case R_PROD: shmem_##N##_prod_to_all(d, s, n, a, b, c, w, p); return 0;
#define TEAMF(N, BODY) static int rt_##N(int op, shmem_team_t t, void *d, const void *s, size_t n) { switch (op) { BODY default: return -99; } }
#define ASETF(N, BODY) static int ra_##N(int op, void *d, const void *s, int n, int a, int b, int c, void *w, long *p) { switch (op) { BODY default: return -99; } }
#define ALL3(X) X(uchar) X(ushort) X(uint) X(ulong) X(ulonglong) X(int8) X(int16) X(int32) X(int64) X(uint8) X(uint16) X(uint32) X(uint64) X(size)
#define F_ALL3(N) TEAMF(N, TB(N) TM(N) TS(N))
ALL3(F_ALL3)
#define ALL2(X) X(float) X(double) X(longdouble) X(char) X(schar) X(short) X(int) X(long) X(longlong) X(ptrdiff)
#define F_ALL2(N) TEAMF(N, TM(N) TS(N))
ALL2(F_ALL2)
TEAMF(complexf, TS(complexf)) TEAMF(complexd, TS(complexd))
ASETF(short, AB(short) AM_(short) AS(short)) ASETF(int, AB(int) AM_(int) AS(int)) ASETF(long, AB(long) AM_(long) AS(long)) ASETF(longlong, AB(longlong) AM_(longlong) AS(longlong))
ASETF(float, AM_(float) AS(float)) ASETF(double, AM_(double) AS(double)) ASETF(longdouble, AM_(longdouble) AS(longdouble)) ASETF(complexf, AS(complexf)) ASETF(complexd, AS(complexd))
#define RE(T, N, C, A) { #N, sizeof(T), C, rt_##N, A },
static const red_t rd[] = {
    RE(unsigned char, uchar, 0, 0) RE(unsigned short, ushort, 0, 0) RE(unsigned int, uint, 0, 0) RE(unsigned long, ulong, 0, 0) RE(unsigned long long, ulonglong, 0, 0) RE(int8_t, int8, 1, 0) RE(int16_t, int16, 1, 0) RE(int32_t, int32, 1, 0)
    RE(int64_t, int64, 1, 0) RE(uint8_t, uint8, 0, 0) RE(uint16_t, uint16, 0, 0) RE(uint32_t, uint32, 0, 0) RE(uint64_t, uint64, 0, 0) RE(size_t, size, 0, 0) RE(float, float, 2, ra_float) RE(double, double, 3, ra_double)
    RE(long double, longdouble, 4, ra_longdouble) RE(char, char, 1, 0) RE(signed char, schar, 1, 0) RE(short, short, 1, ra_short) RE(int, int, 1, ra_int) RE(long, long, 1, ra_long) RE(long long, longlong, 1, ra_longlong) RE(ptrdiff_t, ptrdiff, 1, 0)
    RE(float _Complex, complexf, 5, ra_complexf) RE(double _Complex, complexd, 6, ra_complexd) };
#define NRD NELEM(rd)
static uint64_t iv(int size, int i) { uint64_t m = size == 8 ? ~0ULL : (1ULL << size * 8) - 1; uint64_t t[6] = { 1, 3, m, m >> 1, (m >> 1) + 1, 0x5AA5C33C96693FF3ULL & m }; return t[i % 6]; }
static const double fv[6] = { 1, 2, -3, 0.5, 4, -1.25 };
static void red_val(const red_t *r, int i, void *p)
{
    switch (r->cls) {
    case 0: case 1: { uint64_t v = iv(r->size, i); memcpy(p, &v, r->size); break; }
    case 2: *(float *) p = fv[i % 6]; break;
    case 3: *(double *) p = fv[i % 6]; break;
    case 4: memset(p, 0, 16); *(long double *) p = fv[i % 6]; break;
    case 5: *(float _Complex *) p = fv[i % 6] + fv[(i + 2) % 6] * I; break;
    case 6: *(double _Complex *) p = fv[i % 6] + fv[(i + 2) % 6] * I; break;
    }
}
static int red_cmp(const red_t *r, const void *a, const void *b)
{
    switch (r->cls) { case 4: return *(long double *) a == *(long double *) b; case 5: return *(float _Complex *) a == *(float _Complex *) b; case 6: return *(double _Complex *) a == *(double _Complex *) b;
    case 2: return *(float *) a == *(float *) b; case 3: return *(double *) a == *(double *) b; }
    return !memcmp(a, b, r->size);
}
static void red_op(const red_t *r, int op, void *acc, const void *x)
{
    if (r->cls <= 1) {
        uint64_t a = 0, b = 0, v = 0;
        memcpy(&a, acc, r->size); memcpy(&b, x, r->size);
        int sh = 64 - 8 * r->size;
        int64_t sa = (int64_t) (a << sh) >> sh, sb = (int64_t) (b << sh) >> sh;
        switch (op) { case R_AND: v = a & b; break; case R_OR: v = a | b; break; case R_XOR: v = a ^ b; break; case R_SUM: v = a + b; break; case R_PROD: v = a * b; break;
        case R_MIN: v = r->cls ? (sa < sb ? a : b) : a < b ? a : b; break; case R_MAX: v = r->cls ? (sa > sb ? a : b) : a > b ? a : b; break; }
        memcpy(acc, &v, r->size);
        return;
    }
#define FO(T) { T *a = acc; T b = *(const T *) x; switch (op) { case R_SUM: *a += b; break; case R_PROD: *a *= b; break; case R_MIN: if (b < *a) *a = b; break; case R_MAX: if (b > *a) *a = b; break; } break; }
#define CO(T) { T *a = acc; T b = *(const T *) x; switch (op) { case R_SUM: *a += b; break; case R_PROD: *a *= b; break; } break; }
    switch (r->cls) { case 2: FO(float) case 3: FO(double) case 4: FO(long double) case 5: CO(float _Complex) case 6: CO(double _Complex) }
}
MC_SCEN(coll_reduce)
{
    shmem_init();
    int me = shmem_my_pe(), n = shmem_n_pes(), explore = mc_arg("explore", 0);
    const red_t *r = &rd[mc_arg("type", -1) >= 0 ? mc_arg("type", 0) : mc_choose_all(NRD)];
    int op = mc_choose_all(7);
    int ok = op <= R_XOR ? r->cls <= 1 : op <= R_MAX ? r->cls < 5 : 1;
    int kind = mc_choose_all(4), aset = kind == 0;
    if (aset) { if (!r->aset || 0) ok = 0; }
    else if (op <= R_XOR && !(r->cls == 0 || !strncmp(r->name, "int", 3) && strcmp(r->name, "int"))) ok = 0; /* no such routine */
    if (ok) {
        set_t all[96], s = { 0, 0, n };
        int na = sets_all(n, all);
        if (kind == 0 || kind == 2) s = all[mc_choose_all(na)];
        int cnt = mc_choose_all(3), inplace = mc_choose_all(2), shift = explore ? 0 : mc_choose_all(mc_arg("shifts", 6));
        if (explore && !cnt) cnt = 3;
        hsrc = shmem_malloc(CB);
        unsigned char *d = cdst, *src = hsrc;
        if (inplace) src = d;
        fill(cdst, CB, 9); fill(hsrc, CB, 9);
        int z = r->size;
        for (int k = 0; k < cnt; k++) red_val(r, me + 2 * k + shift, src + k * z);
        unsigned char bs[CB];
        memcpy(bs, src, CB);
        grp_t g;
        grp_make(&g, kind, s);
        shmem_barrier_all();
        if (explore) mc_begin();
        for (int rep = 0; rep < 1 + (g.rank >= 0); rep++) { /* right after the call, and again at the end */
            if (rep == 0 && g.rank >= 0) {
                int rc = aset ? r->aset(op, d, src, cnt, s.start, s.log, s.size, pwrk, cps) : r->team(op, g.team, d, src, cnt);
                mc_assert(rc == 0, "%s %s reduction returned %d", r->name, rn[op], rc);
            }
            if (rep == 1 || g.rank < 0) { shmem_barrier_all(); if (explore) mc_end(); }
            unsigned char e[CB], v[16] __attribute__((aligned(16)));
            fill(e, CB, 9);
            if (inplace && g.rank < 0) memcpy(e, bs, CB);
            if (g.rank >= 0)
                for (int k = 0; k < cnt; k++) {
                    memset(v, 0, 16);
                    red_val(r, g.pe[0] + 2 * k + shift, v);
                    for (int q = 1; q < g.size; q++) { unsigned char x[16] __attribute__((aligned(16))); red_val(r, g.pe[q] + 2 * k + shift, x); red_op(r, op, v, x); }
                    mc_assert(red_cmp(r, d + k * z, v), "%s %s reduction over %d PEs (%s%s): element %d on PE %d is wrong", r->name, rn[op], g.size, aset ? "active set" : "team", inplace ? ", in place" : "", k, me);
                    memcpy(e + k * z, d + k * z, z);
                }
            mc_assert(!memcmp(d, e, CB), "%s %s reduction over %d PEs (%s) changed bytes outside its result on PE %d", r->name, rn[op], g.size, aset ? "active set" : "team", me);
            if (!inplace) mc_assert(!memcmp(src, bs, CB), "%s %s reduction changed its source", r->name, rn[op]);
        }
        grp_free(&g, kind);
    }
    shmem_finalize();
}

/* the source right before or right behind the destination */
MC_SCEN(reduce_adj)
{
    shmem_init();
    int me = shmem_my_pe(), n = shmem_n_pes();
    const red_t *r = &rd[mc_choose_all(NRD)];
    int op = (int[]) { R_SUM, R_PROD, R_MAX, R_XOR }[mc_choose_all(4)], aset = mc_choose_all(2), first = mc_choose_all(2), gap = mc_choose_all(2), cnt = 1 + mc_choose_all(4), z = r->size;
    int ok = op == R_XOR ? r->cls <= 1 : op == R_MAX ? r->cls < 5 : 1;
    if (aset) { if (!r->aset) ok = 0; }
    else if (op == R_XOR && !(r->cls == 0 || !strncmp(r->name, "int", 3) && strcmp(r->name, "int"))) ok = 0;
    unsigned char *b = shmem_malloc(CB), *s = b + (first ? (cnt + gap) * z : 0), *d = b + (first ? 0 : (cnt + gap) * z), bs[CB];
    fill(b, CB, 9);
    for (int k = 0; k < cnt; k++) red_val(r, me + 2 * k, s + k * z);
    memcpy(bs, b, CB);
    shmem_barrier_all();
    if (ok) {
        int rc = aset ? r->aset(op, d, s, cnt, 0, 0, n, pwrk, cps) : r->team(op, SHMEM_TEAM_WORLD, d, s, cnt);
        mc_assert(rc == 0, "%s %s reduction returned %d", r->name, rn[op], rc);
        for (int k = 0; k < cnt; k++) {
            unsigned char v[16] __attribute__((aligned(16))), x[16] __attribute__((aligned(16)));
            memset(v, 0, 16);
            red_val(r, 2 * k, v);
            for (int q = 1; q < n; q++) { red_val(r, q + 2 * k, x); red_op(r, op, v, x); }
            mc_assert(red_cmp(r, d + k * z, v), "%s %s reduction of %d elements, source %d bytes %s the destination: element %d on PE %d is wrong", r->name, rn[op], cnt, (cnt + gap) * z, first ? "behind" : "before", k, me);
            memcpy(bs + (d - b) + k * z, d + k * z, z);
        }
        mc_assert(!memcmp(b, bs, CB), "%s %s reduction changed bytes outside its result on PE %d", r->name, rn[op], me);
    }
    shmem_barrier_all();
    shmem_finalize();
}

/* ---- P18: every sequence of collectives over changing sets, with one-sided traffic in flight */
enum { Q_BARRIER = 5, Q_SYNC, Q_REDUCE, Q_TEAM_BCAST, Q_TEAM_COLLECT, Q_TEAM_REDUCE, Q_N };
MC_SYMM static unsigned char qs[4][CB] __attribute__((aligned(16))), qd[4][CB] __attribute__((aligned(16)));
MC_SYMM static long qps[4], qcnt[2];
MC_SCEN(coll_seq)
{
    shmem_init();
    int me = shmem_my_pe(), n = shmem_n_pes(), depth = mc_arg("depth", 3), explore = mc_arg("explore", 0), rep = mc_arg("rep", 1), traffic = mc_arg("traffic", 1);
    set_t all[96], all0[96], set[4];
    int na0 = sets_all(n, all), na = 0, kind[4], root[4];
    memcpy(all0, all, sizeof all);
    for (int i = 0; i < na0; i++) if (all[i].size > 1) all[na++] = all[i];
    int kmask = mc_arg("kinds", 0x7ff), ks[Q_N], nk = 0;
    for (int i = 0; i < Q_N; i++) if (kmask >> i & 1) ks[nk++] = i;
    for (int i = 0; i < depth; i++) {
        kind[i] = ks[mc_choose_all(nk)];
        set[i] = all[mc_choose_all(na)];
        root[i] = (kind[i] == C_BCAST || kind[i] == Q_TEAM_BCAST) ? mc_choose_all(2) * (set[i].size - 1) : 0;
        for (int k = 0; k < CB; k++) { qs[i][k] = pat(1 + 100 * i + me, k); qd[i][k] = pat(31 + 100 * i + me, k); }
    }
    shmem_team_t team[64];
    char made[64] = { 0 };
    memset(team, 0, sizeof team);
    for (int i = 0; i < depth; i++)
        if (kind[i] >= Q_TEAM_BCAST) {
            int a = 0;
            while (memcmp(&all[a], &set[i], sizeof(set_t))) a++;
            if (!made[a]++) mc_assert(shmem_team_split_strided(SHMEM_TEAM_WORLD, set[i].start, 1 << set[i].log, set[i].size, NULL, 0, &team[a]) == 0, "team split failed");
        }
    qcnt[0] = qcnt[1] = 0;
    shmem_barrier_all();
    if (mc_arg("warm", 0)) { /* every active set once, in several orders */
        int order = mc_choose_all(4), w = mc_choose_all(2);
        int mul = na0 % 7 ? 7 : na0 % 5 ? 5 : 11;
        for (int j = 0; j < na0; j++) {
            int ix = order < 2 ? j : j * mul % na0, r;
            set_t x = all0[order & 1 ? na0 - 1 - ix : ix];
            shmem_sync_all();
            if ((r = set_rank(x, me)) < 0) continue;
            long v = 1000 * (j + 1) + me;
            qs[3][0] = 0;
            memcpy(qs[3], &v, 8);
            if (w) shmem_fcollect64(qd[3], qs[3], 1, x.start, x.log, x.size, qps); else shmem_collect64(qd[3], qs[3], 1, x.start, x.log, x.size, qps);
            for (int q = 0; q < x.size; q++) mc_assert(((long *) qd[3])[q] == 1000 * (j + 1) + set_pe(x, q), "collect over the active set (%d, %d, %d), the %d-th one used: block %d is wrong on PE %d", x.start, x.log, x.size, j, q, me);
            if (!(j % 3)) shmem_barrier(x.start, x.log, x.size, qps);
        }
        shmem_barrier_all();
    }
    if (explore) mc_begin();
    int sent = 0;
    for (int r = 0; r < rep; r++)
    for (int i = 0; i < depth; i++) {
        grp_t g;
        memset(&g, 0, sizeof g);
        g.s = set[i]; g.size = set[i].size; g.rank = set_rank(set[i], me); g.aset = kind[i] < Q_TEAM_BCAST;
        for (int q = 0; q < g.size; q++) g.pe[q] = set_pe(set[i], q);
        if (g.rank < 0) continue;
        if (!g.aset) { int a = 0; while (memcmp(&all[a], &set[i], sizeof(set_t))) a++; g.team = team[a]; }
        if (traffic) { shmem_long_atomic_add(&qcnt[0], 1, (me + 1) % n); sent++; }
        if (traffic > 1) shmem_long_atomic_fetch_inc(&qcnt[1], (me + 1) % n);
        cseed = 100 * i;
        int nn[9] = { 3, 3, 3, 3, 3, 3, 3, 3, 3 }, z = 8;
        const ct_t *c = &ct[NCT - 1 - (i & 1)];
        switch (kind[i]) {
        case C_COLLECT: for (int q = 0; q < g.size; q++) nn[q] = q == 0 ? 2 : q == 1 ? 0 : 1;
            /* fallthrough */
        case C_BCAST: case C_FCOLLECT: case C_A2A:
            coll_call(c, kind[i], &g, qd[i], qs[i], nn[g.rank], root[i], 1, 1);
            coll_check(c, kind[i], &g, qd[i], qs[i], nn, root[i], 1, 1, "in a sequence of collectives");
            break;
        case C_A2AS:
            coll_call(c, kind[i], &g, qd[i], qs[i], 3, 0, 2, 1 + (i & 1));
            coll_check(c, kind[i], &g, qd[i], qs[i], nn, 0, 2, 1 + (i & 1), "in a sequence of collectives");
            break;
        case Q_TEAM_BCAST: case Q_TEAM_COLLECT:
            c = &ct[7];
            coll_call(c, kind[i] == Q_TEAM_BCAST ? C_BCAST : C_COLLECT, &g, qd[i], qs[i], 3, root[i], 1, 1);
            coll_check(c, kind[i] == Q_TEAM_BCAST ? C_BCAST : C_COLLECT, &g, qd[i], qs[i], nn, root[i], 1, 1, "in a sequence of collectives");
            break;
        case Q_BARRIER: shmem_barrier(set[i].start, set[i].log, set[i].size, qps); break;
        case Q_SYNC: shmem_sync_aset(set[i].start, set[i].log, set[i].size, qps); break;
        case Q_REDUCE: case Q_TEAM_REDUCE: {
            uint32_t *s = (uint32_t *) qs[i], *d = (uint32_t *) qd[i];
            if (kind[i] == Q_REDUCE) shmem_int_sum_to_all((int *) d, (int *) s, 3, set[i].start, set[i].log, set[i].size, (int *) pwrk, qps);
            else mc_assert(shmem_int_sum_reduce(g.team, (int *) d, (int *) s, 3) == 0, "reduce failed");
            for (int k = 0; k < 3; k++) {
                uint32_t e = 0;
                for (int q = 0; q < g.size; q++) { unsigned char b[CB]; fill(b, CB, 1 + cseed + g.pe[q]); e += ((uint32_t *) b)[k]; }
                mc_assert(d[k] == e, "the sum reduction in a sequence of collectives is wrong on PE %d", me);
            }
            break; }
        }
        (void) z;
        if (rep > 1) for (int k = 0; k < CB; k++) qd[i][k] = pat(31 + 100 * i + me, k);
        if (rep > 1) shmem_sync_all();
    }
    mc_ghost_add((me + 1) % n, sent);
    shmem_barrier_all();
    if (traffic) mc_assert(qcnt[0] == mc_ghost(me), "%ld of %ld one-sided updates made between the collectives arrived", qcnt[0], (long) mc_ghost(me));
    if (explore) { shmem_barrier_all(); mc_end(); }
    for (int a = 0; a < na; a++) if (team[a]) shmem_team_destroy(team[a]);
    shmem_finalize();
    mc_leakcheck();
}

#ifdef MC_VARIANT_BIG
/* P14-P17: element counts around every power of two up to a large bound */
#define LB (192 << 10)
MC_SYMM static unsigned char lsrc[LB] __attribute__((aligned(16))) = { 1 }, ldst[LB] __attribute__((aligned(16))) = { 1 };
static int lwrk_need(int cnt) { return cnt / 2 + 1 > SHMEM_REDUCE_MIN_WRKDATA_SIZE ? cnt / 2 + 1 : SHMEM_REDUCE_MIN_WRKDATA_SIZE; }
MC_SCEN(coll_sizes)
{
    enum { L_RED = 5 };
    shmem_init();
    int me = shmem_my_pe(), n = shmem_n_pes(), kmask = mc_arg("kinds", 0x3f), ks[6], nk = 0, top = mc_arg("top", 16);
    for (int i = 0; i < 6; i++) if (kmask >> i & 1) ks[nk++] = i;
    int k = ks[mc_choose_all(nk)], ti = mc_choose_all(4), kind = mc_choose_all(2), sub = mc_choose_all(2), e = mc_choose_all(top + 1), dd = mc_choose_all(3) - 1;
    int t = kind ? (int[]) { 5, 6, 7, 24 }[ti] : 25 + (ti & 1), ok = (dd == 0 || e > 1) && !(kind == 0 && ti >= 2) && !(k == L_RED && (t == 5 || t == 24)) && !(t == 24 && e < 7);
    set_t all[96], s = { 0, 0, n };
    int na = sets_all(n, all), dst = 1, sst = 1, root = 0;
    if (sub) s = all[n == 2 ? 1 : na - n - 1]; /* a single PE, or the last pair */
    long cnt = (1L << e) + dd;
    grp_t g;
    grp_make(&g, kind ? 2 : 0, s);
    const ct_t *c = &ct[t];
    if (k == C_A2AS) { static const int sd[][2] = { { 1, 1 }, { 3, 1 }, { 1, 2 }, { 9, 1 }, { 1, 9 }, { 17, 33 }, { 33, 17 }, { 64, 64 }, { 1, 128 }, { 257, 1 } }; int st = mc_choose_all(NELEM(sd)); dst = sd[st][0]; sst = sd[st][1]; }
    if (k == C_BCAST) root = mc_choose_all(2) * (g.size - 1);
    long need = cnt * c->size * (k == C_BCAST || k == L_RED ? 1 : g.size) * (dst > sst ? dst : sst);
    if (need > LB) ok = 0;
    if (ok) {
        long z = c->size, lb = need + 2048 < LB ? need + 2048 : LB;
        void *wrk = NULL;
        if (k == L_RED && kind == 0) wrk = shmem_malloc(lwrk_need(cnt) * 8);
        fill(ldst, lb, 31 + me);
        fill(lsrc, lb, 1 + me);
        shmem_barrier_all();
        int a = s.start, l = s.log, ps = s.size;
        long mine = cnt;
        if (k == C_COLLECT && g.rank > 0) mine = cnt - 1; /* ranks above 0 contribute one element less */
        if (g.rank >= 0) {
            if (k == L_RED) {
                if (kind == 0) { if (z == 4) shmem_int_sum_to_all((int *) ldst, (int *) lsrc, cnt, a, l, ps, wrk, cps); else shmem_long_max_to_all((long *) ldst, (long *) lsrc, cnt, a, l, ps, wrk, cps); }
                else { int rc = z == 4 ? shmem_int_sum_reduce(g.team, (int *) ldst, (int *) lsrc, cnt) : shmem_long_max_reduce(g.team, (long *) ldst, (long *) lsrc, cnt); mc_assert(rc == 0, "reduce returned %d", rc); }
            } else coll_call(c, k, &g, ldst, lsrc, mine, root, dst, sst);
            for (long i = 0; i < lb; i++) {
                unsigned char x = pat(31 + me, i);
                long el = i / z, b = i % z;
                switch (k) {
                case C_BCAST: if (el < cnt && !(g.aset && g.rank == root)) x = pat(1 + g.pe[root], i); break;
                case C_COLLECT: if (el < cnt) x = pat(1 + g.pe[0], i); else if (cnt > 1 && (el - cnt) / (cnt - 1) < g.size - 1) { long q = 1 + (el - cnt) / (cnt - 1), o = (el - cnt) % (cnt - 1); x = pat(1 + g.pe[q], o * z + b); } break;
                case C_FCOLLECT: if (el / cnt < g.size) x = pat(1 + g.pe[el / cnt], el % cnt * z + b); break;
                case C_A2A: if (el / cnt < g.size) x = pat(1 + g.pe[el / cnt], (g.rank * cnt + el % cnt) * z + b); break;
                case C_A2AS: { long blk = el / dst, q = blk / cnt; if (el % dst == 0 && q < g.size) x = pat(1 + g.pe[q], (g.rank * cnt + blk % cnt) * sst * z + b); break; }
                case L_RED: if (el < cnt && b == 0) {
                    if (z == 4) { uint32_t v = 0; for (int q = 0; q < g.size; q++) for (int m = 0; m < 4; m++) v += (uint32_t) pat(1 + g.pe[q], el * 4 + m) << 8 * m; mc_assert(((uint32_t *) ldst)[el] == v, "int sum of %ld elements over %d PEs: element %ld is wrong", cnt, g.size, el); }
                    else { long v = 0; for (int q = 0; q < g.size; q++) { long w = 0; for (int m = 0; m < 8; m++) w |= (long) ((unsigned long) pat(1 + g.pe[q], el * 8 + m) << 8 * m); if (q == 0 || w > v) v = w; } mc_assert(((long *) ldst)[el] == v, "long max of %ld elements over %d PEs: element %ld is wrong", cnt, g.size, el); }
                    }
                    if (el < cnt) x = ldst[i];
                    break;
                }
                mc_assert(ldst[i] == x, "%s%s of %ld elements of %s (%s of %d PEs, root %d, dst=%d, sst=%d): byte %ld on participant %d is 0x%02x, expected 0x%02x", k == L_RED ? "reduction" : ckn[k], kind ? "" : " (active set)", cnt, c->name, kind ? "team" : "active set", g.size, root, dst, sst, i, g.rank, ldst[i], x);
            }
        }
        shmem_barrier_all();
        for (long i = 0; i < lb; i++) mc_assert(lsrc[i] == pat(1 + me, i) && (g.rank >= 0 || ldst[i] == pat(31 + me, i)), "a collective over other PEs or its source changed memory of PE %d", me);
        if (wrk) shmem_free(wrk);
    }
    grp_free(&g, kind ? 2 : 0);
    shmem_barrier_all();
    shmem_finalize();
    mc_leakcheck();
}
#endif
