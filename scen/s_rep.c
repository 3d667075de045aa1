/* P27: any cycle of operations repeated many times; results stay right and no object accumulates */
#include "setup.h"
#define NK 14
static const char *kn[NK] = { "put/get", "strided", "atomics", "nonblocking", "heap", "active-set collectives", "teams", "space life cycle", "contexts", "locks", "signalled wait", "ordering and barriers", "all types", "other strides" };
MC_SYMM static long rlock[1], rflag[4], rsrc[4], rdst[8], rps[4], rw[12];
static int me, n, to, fr;
static void op1(int op, int i, const char *w)
{
    ops_issue(op, i, to);
    shmem_quiet();
    ops_check_local(op, i, w);
    shmem_barrier_all();
    ops_check_remote(op, i, fr, me, w);
    shmem_barrier_all();
    ops_slot_t *b = ops_base(op)[fr];
    for (int k = 0; k < 4; k++) b[i][k] = OPS_INIT + k;
    shmem_barrier_all();
}
static void ops_list(const int *l, int c, const char *w)
{
    for (int i = 0; i < c; i++) ops_issue(l[i], i % OPS_MAXI, to);
    shmem_quiet();
    for (int i = 0; i < c; i++) ops_check_local(l[i], i, w);
    shmem_barrier_all();
    for (int i = 0; i < c; i++) ops_check_remote(l[i], i, fr, me, w);
    shmem_barrier_all();
    for (int i = 0; i < c; i++) for (int k = 0; k < 4; k++) ops_base(l[i])[fr][i][k] = OPS_INIT + k;
    shmem_barrier_all();
}
static void types(int it)
{
    char b[4] = { 1 + it % 100, 2, 3, 4 }, *hb = (char *) rw;
    shmem_char_put(hb, b, 3, to);
    shmem_barrier_all();
    mc_assert(hb[0] == 1 + it % 100 && hb[2] == 3, "char put in cycle %d", it);
    shmem_barrier_all();
    float f = it;
    shmem_float_p((float *) (rw + 1), f, to);
    int v = it;
    shmem_int_put_nbi((int *) (rw + 2), &v, 1, to);
    shmem_int_atomic_set((int *) (rw + 3), it, to);
    shmem_barrier_all();
    mc_assert(*(float *) (rw + 1) == f && *(int *) (rw + 2) == it && *(int *) (rw + 3) == it, "typed operations in cycle %d", it);
    long double ld = it, r = -1;
    rw[0] = 0;
    shmem_longdouble_put((long double *) (rw + 4), &ld, 1, to);
    shmem_barrier_all();
    shmem_longdouble_get(&r, (long double *) (rw + 4), 1, me);
    mc_assert(r == ld, "long double put/get in cycle %d", it);
    shmem_barrier_all();
}
static void asets(int it)
{
    set_t s[96];
    int c = sets_all(n, s);
    for (int i = 0; i < c; i++) {
        int r = set_rank(s[i], me);
        if (r >= 0) {
            int z = s[i].size;
            rsrc[0] = 100 * it + me;
            for (int k = 0; k < 8; k++) rdst[k] = -1;
            shmem_fcollect64(rdst, rsrc, 1, s[i].start, s[i].log, z, rps);
            for (int k = 0; k < z; k++) mc_assert(rdst[k] == 100 * it + set_pe(s[i], k), "fcollect over an active set in cycle %d", it);
            shmem_barrier(s[i].start, s[i].log, z, rps);
            shmem_broadcast64(rdst, rsrc, 1, z - 1, s[i].start, s[i].log, z, rps);
            if (r != z - 1) mc_assert(rdst[0] == 100 * it + set_pe(s[i], z - 1), "broadcast over an active set in cycle %d", it);
            shmem_sync(s[i].start, s[i].log, z, rps);
            shmem_long_max_to_all(rdst, rsrc, 1, s[i].start, s[i].log, z, rw, rps);
            mc_assert(rdst[0] == 100 * it + set_pe(s[i], z - 1), "reduction over an active set in cycle %d", it);
            shmem_barrier(s[i].start, s[i].log, z, rps);
        }
    }
    shmem_barrier_all();
}
static void teams(int it)
{
    for (int st = 0; st < 2; st++) {
        shmem_team_t t, x, y;
        int sz = st && n > 2 ? (n + 1) / 2 : n - st;
        mc_assert(shmem_team_split_strided(SHMEM_TEAM_WORLD, st, st && n > 2 && st + (sz - 1) * 2 < n ? 2 : 1, sz, NULL, 0, &t) == 0, "team split failed in cycle %d", it);
        if (t != SHMEM_TEAM_INVALID) {
            rsrc[0] = it;
            mc_assert(shmem_long_sum_reduce(t, rdst, rsrc, 1) == 0 && rdst[0] == (long) it * shmem_team_n_pes(t), "team reduction in cycle %d", it);
            shmem_team_sync(t);
            mc_assert(shmem_team_split_2d(t, 1, NULL, 0, &x, NULL, 0, &y) == 0, "team split failed in cycle %d", it);
            if (x != SHMEM_TEAM_INVALID) shmem_team_destroy(x);
            if (y != SHMEM_TEAM_INVALID) shmem_team_destroy(y);
            shmem_team_destroy(t);
        }
    }
    shmem_barrier_all();
}
static void space(int it)
{
    shmemx_space_t s;
    shmemx_space_config_t c = { .sheap_size = 1024 + 1024 * (it % 2), .num_contexts = 1 + it % 2, .memkind = SHMEMX_MEM_HOST };
    shmemx_space_create(c, &s);
    shmemx_space_attach(s);
    shmem_ctx_t x = SHMEM_CTX_INVALID;
    mc_assert(shmemx_space_create_ctx(s, 0, &x) == SHMEM_SUCCESS, "space_create_ctx failed in cycle %d", it);
    long *p = shmemx_space_malloc(s, 64);
    mc_assert(p != NULL, "space_malloc failed in cycle %d", it);
    for (int i = 0; i < 8; i++) p[i] = -i;
    shmem_barrier_all();
    long v = 7 * it;
    shmem_ctx_long_put(x, p, &v, 1, to);
    shmem_long_p(p + 1, v + 1, to);
    shmem_ctx_long_atomic_add(x, p + 2, 5, to);
    shmem_ctx_quiet(x);
    shmem_barrier_all();
    mc_assert(p[0] == v && p[1] == v + 1 && p[2] == 3 && p[3] == -3, "operations on a space in cycle %d: %ld %ld %ld %ld", it, p[0], p[1], p[2], p[3]);
    if (it % 3) shmem_ctx_destroy(x); else { shmem_ctx_destroy(x); mc_assert(shmemx_space_create_ctx(s, SHMEM_CTX_PRIVATE, &x) == SHMEM_SUCCESS, "second space_create_ctx failed in cycle %d", it); shmem_ctx_destroy(x); }
    shmem_free(p);
    shmemx_space_detach(s);
    shmemx_space_destroy(s);
}
static void ctxs(int it)
{
    shmem_ctx_t x[2];
    for (int i = 0; i < 2; i++) mc_assert(shmemx_space_create_ctx(sp1, 0, &x[i]) == SHMEM_SUCCESS, "space_create_ctx %d failed in cycle %d", i, it);
    for (int i = 0; i < 2; i++) {
        ops_ctx = x[i]; ops_use_ctx = 1;
        ops_issue(OP_PUT_S, i, to); ops_issue(OP_FADDNBI_S, 2 + i, to);
    }
    for (int i = 0; i < 2; i++) { shmem_ctx_quiet(x[i]); shmem_ctx_destroy(x[it % 2 ? i : 1 - i]); if (it % 2 == 0 && i == 0) { shmem_ctx_quiet(x[0]); } if (it % 2 == 0) break; }
    if (it % 2 == 0) shmem_ctx_destroy(x[0]);
    ops_use_ctx = 0;
    shmem_barrier_all();
    for (int i = 0; i < 2; i++) { ops_check_remote(OP_PUT_S, i, fr, me, "context cycle"); ops_check_remote(OP_FADDNBI_S, 2 + i, fr, me, "context cycle"); ops_check_local(OP_FADDNBI_S, 2 + i, "context cycle"); }
    shmem_barrier_all();
    for (int i = 0; i < 4; i++) for (int k = 0; k < 4; k++) ops_sp[fr][i][k] = OPS_INIT + k;
    shmem_barrier_all();
}
static void heap(int it)
{
    char *a = shmem_malloc(100 + it % 5 * 8), *b = shmem_calloc(3, 40), *c = shmem_align(64, 50);
    mc_assert(a && b && c && (uintptr_t) c % 64 == 0, "allocation failed in cycle %d", it);
    for (int i = 0; i < 120; i++) mc_assert(b[i] == 0, "calloc in cycle %d", it);
    memset(a, 3, 100); memset(b, 4, 120); memset(c, 5, 50);
    if (it % 2) shmem_free(b);
    a = shmem_realloc(a, 400);
    mc_assert(a && a[0] == 3 && a[99] == 3 && c[49] == 5, "realloc in cycle %d", it);
    shmem_free(c); shmem_free(a);
    if (!(it % 2)) shmem_free(b);
}
static void cyc(int k, int it)
{
    char w[80];
    snprintf(w, sizeof w, "%s in cycle %d", kn[k], it);
    switch (k) {
    case 0: { static const int l[] = { OP_PUT, OP_GET, OP_PUTMEM_H, OP_P }; ops_list(l, 4, w); op1(OP_G, 1, w); break; }
    case 1: { static const int l[] = { OP_IPUT, OP_IGET, OP_IPUT_H }; ops_list(l, 3, w); break; }
    case 2: { static const int l[] = { OP_ADD, OP_FADD, OP_CSWAP, OP_SET }, l2[] = { OP_INC, OP_OR, OP_ADD_H, OP_XOR_H }; ops_list(l, 4, w); ops_list(l2, 4, w); break; }
    case 3: { static const int l[] = { OP_PUTNBI, OP_GETNBI_H, OP_FADDNBI, OP_SWAPNBI }, l2[] = { OP_GETNBI, OP_PUTNBI_H }; ops_list(l, 4, w); ops_list(l2, 2, w); break; }
    case 4: heap(it); break;
    case 5: asets(it); break;
    case 6: teams(it); break;
    case 7: space(it); break;
    case 8: ctxs(it); break;
    case 9:
        shmem_set_lock(rlock); rw[11] = shmem_long_g(&rw[10], 0); shmem_long_p(&rw[10], rw[11] + 1, 0); shmem_clear_lock(rlock);
        shmem_barrier_all();
        if (me == 0) { mc_assert(rw[10] == n, "%ld updates under the lock in cycle %d, expected %d", rw[10], it, n); rw[10] = 0; }
        if (shmem_test_lock(rlock) == 0) shmem_clear_lock(rlock);
        shmem_barrier_all();
        break;
    case 10:
        ops_issue(OP_PUT, 0, to); shmem_fence(); shmem_long_p(&rflag[0], it + 1, to);
        shmem_long_wait_until(&rflag[0], SHMEM_CMP_EQ, it + 1);
        ops_check_remote(OP_PUT, 0, fr, me, w);
        mc_assert(shmem_long_test(&rflag[0], SHMEM_CMP_GE, it + 1) && !shmem_long_test(&rflag[0], SHMEM_CMP_NE, it + 1), "test in cycle %d", it);
        shmem_barrier_all();
        rflag[0] = 0;
        for (int q = 0; q < 4; q++) ops_st[fr][0][q] = OPS_INIT + q;
        shmem_barrier_all();
        break;
    case 11:
        ops_issue(OP_PUT, 0, to); shmem_fence(); ops_issue(OP_ADD, 1, to); shmem_quiet(); ops_issue(OP_INC, 2, me); shmem_quiet(); shmem_sync_all();
        ops_check_remote(OP_PUT, 0, fr, me, w); ops_check_remote(OP_ADD, 1, fr, me, w); ops_check_remote(OP_INC, 2, me, me, w);
        shmem_sync_all();
        ops_reset(ops_st);
        shmem_barrier_all();
        break;
    case 12: types(it); break;
    case 13: {
        long l[4] = { it, it + 1, it + 2, -9 };
        shmem_long_iput(rdst, l, 3, 1, 2, to); shmem_long_iput(rdst + 1, l, 2, 1, 2, to);
        shmem_barrier_all();
        mc_assert(rdst[0] == it && rdst[3] == it + 1 && rdst[6] == -7 && rdst[1] == it && rdst[4] == -5, "iput with other strides in cycle %d", it);
        long r[4] = { -1, -1, -1, -1 };
        shmem_long_iget(r, rdst, 2, 3, 2, to);
        mc_assert(r[0] == it && r[2] == it + 1 && r[1] == -1, "iget with other strides in cycle %d", it);
        shmem_barrier_all();
        for (int i = 0; i < 8; i++) rdst[i] = -1 - i;
        shmem_barrier_all();
        break;
    }
    }
}
MC_SCEN(rep_cycle)
{
    static const char *ln[] = { "requests", "derived datatypes", "communicators", "windows", "groups", "infos", "heap blocks" };
    int depth = mc_arg("depth", 2), N = mc_arg("n", 8), k[4], c = 1 + mc_choose_all(depth), base[7];
    long mask = mc_arg("kinds", -1);
    me = mc_pe(); n = mc_npes(); to = (me + 1) % n; fr = (me + n - 1) % n;
    for (int i = 0; i < c; i++) { k[i] = mc_choose_all(NK); if (!(mask >> k[i] & 1)) return; if (i && k[i] == k[i - 1]) return; }
    shmem_init();
    { shmemx_space_config_t g = { .sheap_size = 1024, .num_contexts = 2, .memkind = SHMEMX_MEM_HOST }; shmemx_space_create(g, &sp1); shmemx_space_attach(sp1); }
    ops_init(1, sp1);
    for (int i = 0; i < 8; i++) rdst[i] = -1 - i;
    shmem_barrier_all();
    for (int it = 0; it < N; it++) {
        for (int i = 0; i < c; i++) { if (k[i] == 13) { for (int q = 0; q < 8; q++) rdst[q] = -1 - q; shmem_barrier_all(); } cyc(k[i], it); }
        shmem_barrier_all();
        for (int w = 0; w < 7; w++) {
            int l = mc_live(w);
            if (it == 2) base[w] = l;
            if (it > 2) mc_assert(l <= base[w], "repeating %s%s%s: after cycle %d there are %d %s, after cycle 2 there were %d", kn[k[0]], c > 1 ? ", " : "", c > 1 ? kn[k[1]] : "", it, l, ln[w], base[w]);
        }
    }
    for (int i = 0; i < NK; i++) if (mask >> i & 1 && mc_arg("after", 1)) { if (i == 13) { for (int q = 0; q < 8; q++) rdst[q] = -1 - q; shmem_barrier_all(); } cyc(i, N); } /* everything still works */
    mc_leakcheck();
    shmem_free(ops_sp); shmemx_space_detach(sp1); shmemx_space_destroy(sp1); shmem_free(ops_hp);
    shmem_finalize();
    for (int i = 0; i < c; i++) mc_obs(i, k[i]);
}
static long loc[64], res[64];
MC_SYMM static long cell[64];
/* a window of outstanding operations slides over the whole tag range (all PEs both issue and serve) */
MC_SCEN(rep_tags)
{
    shmem_init();
    int N = mc_arg("n", 33000), pend = mc_arg("pend", 4), kind = mc_choose_all(5);
    me = mc_pe(); n = mc_npes(); to = (me + 1) % n; fr = (me + n - 1) % n;
    ops_init(1, NULL);
    shmem_barrier_all();
    long exp = 0;
    for (int i = 0; i < N; i++) {
        int j = i % pend;
        switch (kind) {
        case 0: loc[j] = i; shmem_long_put_nbi(&cell[j], &loc[j], 1, to); break;
        case 1: shmem_long_get_nbi(&res[j], &cell[32 + j], 1, to); break;
        case 2: shmem_long_atomic_fetch_add_nbi(&res[j], &cell[0], 1, to); break;
        case 3: res[0] = shmem_long_atomic_fetch_inc(&cell[0], to); mc_assert(res[0] == i, "fetch_inc %d returned %ld", i, res[0]); break;
        case 4: if (i % 2) shmem_long_atomic_fetch_inc_nbi(&res[j], &cell[0], to); else { loc[j] = i; shmem_long_put_nbi(&cell[1 + j], &loc[j], 1, to); } break;
        }
        if (j == pend - 1) {
            if (kind != 3) shmem_quiet();
            if (kind == 2) for (int q = 0; q < pend; q++, exp++) mc_assert(res[q] == exp, "fetch_add_nbi number %ld returned %ld", exp, res[q]);
            if (kind == 4) for (int q = 1; q < pend; q += 2, exp++) mc_assert(res[q] == exp, "fetch_inc_nbi number %ld returned %ld", exp, res[q]);
            if (kind == 0) { for (int q = 0; q < pend; q++) { long v = RD(&cell[q], to); mc_assert(v == i - pend + 1 + q, "put number %d did not arrive: %ld", i - pend + 1 + q, v); } }
        }
    }
    shmem_barrier_all();
    if (kind == 2 || kind == 3) mc_assert(cell[0] == N, "%ld of %d additions", cell[0], N);
    if (kind == 4) mc_assert(cell[0] == N / 2, "%ld of %d additions", cell[0], N / 2);
    mc_obs(0, kind);
    shmem_finalize();
}
