/* P29: several threads of a PE use the library at the multiple thread level */
#include "setup.h"
static int me, n, to, m_op[4], m_mode[4];
static int need_mt(void)
{
    int p;
    shmem_init_thread(SHMEM_THREAD_MULTIPLE, &p);
    me = shmem_my_pe(); n = shmem_n_pes(); to = (me + 1) % n;
    return p == SHMEM_THREAD_MULTIPLE;
}
static const int al[] = { OP_PUT, OP_PUTNBI, OP_ADD, OP_FADDNBI, OP_GETNBI, OP_FADD, OP_CSWAP, OP_IPUT, OP_P, OP_GET, OP_PUTMEM_H, OP_INC, OP_G, OP_IGET, OP_SWAPNBI, OP_XOR_H };
static int pick(int k) { if (mc_arg(k ? "op1" : "op0", -1) >= 0) return al[mc_arg(k ? "op1" : "op0", 0)]; int c = mc_arg("alpha", NELEM(al)); return al[mc_choose_all(c)] + 0 * k; }
static void done(int i, const char *w) { ops_check_remote(m_op[i], i, me, to, w); ops_check_local(m_op[i], i, w); }
static int mode(int k, int n) { int m = mc_arg(k ? "m1" : "m0", -1); return m >= 0 ? m : mc_choose_all(n); }
/* ---- two threads: operation, quiet */
static void *t_quiet(void *a)
{
    int i = (int) (intptr_t) a;
    ops_issue(m_op[i], i, to);
    if (ops_is_blocking_fetch(m_op[i])) ops_check_local(m_op[i], i, "at return");
    shmem_quiet();
    done(i, "after quiet of the issuing thread");
    return NULL;
}
MC_SCEN(mt_quiet)
{
    int act = mc_arg("act", 1);
    if (!need_mt()) mc_fail("the multiple thread level is not provided");
    ops_init(1, NULL);
    m_op[0] = pick(0); m_op[1] = pick(1);
    mc_obs(0, m_op[0] * 100 + m_op[1]);
    if (m_op[1] > m_op[0] && mc_arg("symm", 1)) { shmem_finalize(); return; }
    shmem_barrier_all();
    mc_begin();
    if (me < act) {
        int t = mc_spawn(t_quiet, (void *) 1);
        t_quiet((void *) 0);
        mc_join(t);
    }
    shmem_barrier_all();
    mc_end();
    shmem_finalize();
}
/* ---- one thread issues, another one quiets afterwards */
static void *t_q2(void *a)
{
    mc_await(1, 1);
    if (m_mode[0]) shmem_fence();
    shmem_quiet();
    done(0, "after quiet of another thread");
    return NULL;
}
MC_SCEN(mt_handoff)
{
    if (!need_mt()) mc_fail("the multiple thread level is not provided");
    ops_init(1, NULL);
    m_op[0] = pick(0); m_op[1] = pick(1); m_mode[0] = mc_choose_all(2);
    mc_obs(0, m_op[0] * 100 + m_op[1]); mc_obs(1, m_mode[0]);
    shmem_barrier_all();
    mc_begin();
    if (me == 0) {
        int t = mc_spawn(t_q2, NULL);
        ops_issue(m_op[0], 0, to);
        mc_ghost_set(1, 1);
        ops_issue(m_op[1], 1, to);
        if (m_mode[0]) shmem_quiet();
        mc_join(t);
    }
    shmem_barrier_all();
    if (me == 1) ops_check_remote(m_op[0], 0, 0, 1, "after the barrier");
    mc_end();
    shmem_finalize();
}
/* ---- atomics of all threads on one variable: every fetched value is distinct, nothing is lost */
MC_SYMM static long a_var[1] = { 0 }, a_wait[2] = { 0 };
static int a_tgt;
static void *t_amo(void *a)
{
    int k = (int) (intptr_t) a, per = mc_arg("per", 1);
    for (int i = 0; i < per; i++) {
        long r = 0;
        switch (m_mode[k]) {
        case 0: r = shmem_long_atomic_fetch_inc(a_var, a_tgt); break;
        case 1: r = shmem_long_atomic_fetch_add(a_var, 1, a_tgt); break;
        case 2: for (long c = 0;; c = r) { r = shmem_long_atomic_compare_swap(a_var, c, c + 1, a_tgt); if (r == c) break; } break;
        case 3: shmem_long_atomic_inc(a_var, a_tgt); shmem_quiet(); r = -1; break;
        case 4: shmem_long_atomic_fetch_add_nbi(&r, a_var, 1, a_tgt); shmem_quiet(); break;
        }
        if (r >= 0) { mc_assert(!(mc_ghost(0) >> r & 1), "two atomics fetched the value %ld", r); mc_ghost_set(0, mc_ghost(0) | 1L << r); }
        mc_ghost_add(1, 1);
        mc_assert(*(volatile long *) mc_remote(a_var, a_tgt) >= mc_ghost(1), "an update was lost: %ld after %ld completed updates", *(long *) mc_remote(a_var, a_tgt), (long) mc_ghost(1));
    }
    return NULL;
}
MC_SCEN(mt_amo)
{
    int a_tgt0 = a_tgt = mc_arg("tgt", 0), per = mc_arg("per", 1), actors = mc_arg("actors", 2), tot;
    if (!need_mt()) mc_fail("the multiple thread level is not provided");
    m_mode[0] = mode(0, 5); m_mode[1] = mode(1, 5);
    a_var[0] = 0;
    mc_obs(0, m_mode[0]); mc_obs(1, m_mode[1]);
    shmem_barrier_all();
    mc_begin();
    tot = per * (actors + 1);
    if (me < actors) {
        int t = me == mc_arg("two", 0) ? mc_spawn(t_amo, (void *) 1) : 0;
        t_amo((void *) 0);
        if (t) mc_join(t);
    }
    shmem_barrier_all();
    if (me == a_tgt0) mc_assert(a_var[0] == tot, "%ld of %d updates", a_var[0], tot);
    mc_end();
    shmem_finalize();
}
/* ---- concurrent fetches of different objects: each thread gets the answer to its own request */
static void *t_tags(void *a)
{
    int k = (int) (intptr_t) a, cnt = mc_arg(k ? "n1" : "n0", 1), kind = mc_arg(k ? "k1" : "k0", 0);
    for (int i = 0; i < cnt; i++) {
        long v = -1, *x = &ops_st[k][i][0], want = 700 + 10 * k + i;
        switch (kind) {
        case 0: v = shmem_long_atomic_fetch(x, to); break;
        case 1: v = shmem_long_g(x, to); break;
        case 2: shmem_long_get(&v, x, 1, to); break;
        case 3: v = shmem_long_atomic_swap(x, 5, to); break;
        case 4: v = shmem_long_atomic_compare_swap(x, want, 5, to); break;
        case 5: shmem_long_iget(&v, x, 1, 1, 1, to); break;
        case 6: case 7: { long w[2] = { want + 100, want + 200 }; if (kind == 6) shmem_long_put(x, w, 2, to); else shmem_long_iput(x, w, 2, 1, 2, to); continue; }
        case 8: { int64_t w = want + 100; shmem_putmem(x, &w, 8, to); continue; }
        }
        mc_assert(v == want, "thread %d: fetch %d of its own object delivered %ld, expected %ld", k, i, v, want);
    }
    return NULL;
}
MC_SCEN(mt_tags)
{
    if (!need_mt()) mc_fail("the multiple thread level is not provided");
    for (int k = 0; k < 2; k++) for (int i = 0; i < OPS_MAXI; i++) ops_st[k][i][0] = 700 + 10 * k + i;
    shmem_barrier_all();
    mc_begin();
    if (me == 0) {
        int t = mc_spawn(t_tags, (void *) 1);
        t_tags((void *) 0);
        mc_join(t);
        shmem_quiet();
        for (int k = 0; k < 2; k++) if (mc_arg(k ? "k1" : "k0", 0) >= 6)
            for (int i = 0; i < mc_arg(k ? "n1" : "n0", 1); i++) {
                int kind = mc_arg(k ? "k1" : "k0", 0);
                long e0 = 800 + 10 * k + i, e1 = e0 + 100, *r = mc_remote(&ops_st[k][i][0], to);
                mc_assert(r[0] == e0 && (kind == 8 || r[kind == 6 ? 1 : 2] == e1), "thread %d: its put number %d delivered %ld, %ld, expected %ld, %ld", k, i, r[0], r[kind == 7 ? 2 : 1], e0, e1);
            }
    }
    shmem_barrier_all();
    mc_end();
    shmem_finalize();
}
/* ---- two threads with contexts of their own */
static shmem_ctx_t m_cx[2];
static void *t_ctx(void *a)
{
    int k = (int) (intptr_t) a, rounds = mc_arg("rounds", 1), want = mc_arg("nctx", 2);
    for (int r = 0; r < rounds; r++) {
        shmem_ctx_t c = SHMEM_CTX_INVALID;
        int rc = shmemx_space_create_ctx(sp1, 0, &c);
        if (want >= 2) mc_assert(rc == SHMEM_SUCCESS, "space_create_ctx failed although a context is free");
        else if (rc != SHMEM_SUCCESS) { mc_assert(mc_ghost(3 + !k) || mc_ghost(5), "space_create_ctx failed although nobody uses the context"); mc_assert(c == SHMEM_CTX_INVALID, "failed creation changed the handle"); return NULL; }
        mc_assert(c != SHMEM_CTX_INVALID && c != m_cx[!k], "two threads hold the same context");
        m_cx[k] = c; mc_ghost_set(5, 1);
        long v = 40 + k, old = -1;
        switch (m_mode[k]) {
        case 0: shmem_ctx_long_put(c, &ops_sp[me][k][0], &v, 1, to); break;
        case 1: shmem_ctx_long_atomic_set(c, &ops_sp[me][k][0], v, to); break;
        case 2: shmem_ctx_long_put_nbi(c, &ops_sp[me][k][0], &v, 1, to); break;
        case 3: shmem_ctx_long_atomic_fetch_add_nbi(c, &old, &ops_sp[me][k][1], 1, to); shmem_ctx_long_p(c, &ops_sp[me][k][0], v, to); break;
        }
        if (mc_arg("noquiet", 0)) { m_cx[k] = SHMEM_CTX_INVALID; shmem_ctx_destroy(c); }
        else shmem_ctx_quiet(c);
        mc_assert(RD(&ops_sp[me][k][0], to) == 40 + k, "an operation on the context is not complete after its quiet");
        if (m_mode[k] == 3) mc_assert(old == OPS_INIT + 1 + r && RD(&ops_sp[me][k][1], to) == OPS_INIT + 2 + r, "an atomic on the context is not complete after its quiet");
        if (!mc_arg("noquiet", 0)) { m_cx[k] = SHMEM_CTX_INVALID; shmem_ctx_destroy(c); }
    }
    return NULL;
}
MC_SCEN(mt_ctx)
{
    if (!need_mt()) mc_fail("the multiple thread level is not provided");
    shmemx_space_config_t c = { .sheap_size = 1024, .num_contexts = mc_arg("nctx", 2), .memkind = SHMEMX_MEM_HOST };
    shmemx_space_create(c, &sp1);
    shmemx_space_attach(sp1);
    ops_init(0, sp1);
    m_mode[0] = mode(0, 4); m_mode[1] = mode(1, 4);
    mc_obs(0, m_mode[0] * 10 + m_mode[1]);
    shmem_barrier_all();
    mc_begin();
    if (me == 0) {
        int t = mc_spawn(t_ctx, (void *) 1);
        t_ctx((void *) 0);
        mc_join(t);
    }
    shmem_barrier_all();
    mc_end();
    shmem_free(ops_sp);
    shmemx_space_detach(sp1);
    shmemx_space_destroy(sp1);
    shmem_finalize();
}
/* ---- one thread waits for a value another PE sends only after an operation of the other thread */
static void *t_wait(void *a)
{
    long v[1] = { 1 };
    switch (m_mode[0]) {
    case 0: shmem_long_wait_until(&a_wait[0], SHMEM_CMP_EQ, 1); break;
    case 1: shmem_long_wait_until_all(&a_wait[0], 1, NULL, SHMEM_CMP_EQ, 1); break;
    case 2: while (!shmem_long_test(&a_wait[0], SHMEM_CMP_NE, 0)) mc_point(); break;
    }
    mc_assert(a_wait[0] == 1, "wait returned before the value arrived");
    return NULL;
    (void) v;
}
MC_SCEN(mt_wait)
{
    if (!need_mt()) mc_fail("the multiple thread level is not provided");
    ops_init(1, NULL);
    m_op[0] = pick(0); m_mode[0] = 2 * mc_choose_all(2); m_mode[1] = mc_choose_all(2);
    mc_obs(0, m_op[0]); mc_obs(1, m_mode[0]);
    a_wait[0] = a_wait[1] = 0;
    shmem_barrier_all();
    mc_begin();
    if (me == 0) {
        int t = mc_spawn(t_wait, NULL);
        ops_issue(m_op[0], 0, to);
        shmem_quiet();
        done(0, "after quiet");
        shmem_long_p(&a_wait[1], 1, 1);
        mc_join(t);
    } else if (me == 1) {
        shmem_long_wait_until(&a_wait[1], SHMEM_CMP_EQ, 1);
        if (m_mode[1]) shmem_long_atomic_set(&a_wait[0], 1, 0); else shmem_long_p(&a_wait[0], 1, 0);
    }
    shmem_barrier_all();
    mc_end();
    shmem_finalize();
}
/* ---- a thread communicates while another one is inside a collective call */
static void *t_coll(void *a)
{
    shmemx_space_t s;
    shmemx_space_config_t c = { .sheap_size = 512, .num_contexts = 1, .memkind = SHMEMX_MEM_HOST };
    switch (m_mode[0]) {
    case 0: { long *p = shmem_malloc(64); mc_assert(p != NULL, "malloc failed"); shmem_free(p); break; }
    case 1: shmemx_space_create(c, &s); shmemx_space_attach(s); shmemx_space_detach(s); shmemx_space_destroy(s); break;
    case 2: shmem_barrier_all(); break;
    case 3: shmem_sync_all(); break;
    case 4: { shmemx_space_create(c, &s); long *p = shmemx_space_malloc(s, 32); shmem_free(p); shmemx_space_destroy(s); break; }
    case 5: { shmem_team_t t; shmem_team_split_strided(SHMEM_TEAM_WORLD, 0, 1, n, NULL, 0, &t); shmem_team_sync(t); shmem_team_destroy(t); break; }
    }
    return NULL;
}
MC_SCEN(mt_coll)
{
    if (!need_mt()) mc_fail("the multiple thread level is not provided");
    ops_init(1, NULL);
    m_op[0] = pick(0);
    m_mode[0] = mc_arg("mode", -1) >= 0 ? mc_arg("mode", 0) : mc_choose_all(6);
    mc_obs(0, m_op[0]); mc_obs(1, m_mode[0]);
    shmem_barrier_all();
    mc_begin();
    if (me == 0) {
        int t = mc_spawn(t_coll, NULL);
        t_quiet((void *) 0);
        mc_join(t);
    } else t_coll(NULL);
    shmem_barrier_all();
    mc_end();
    shmem_finalize();
}
/* ---- progress thread: a PE that computes without calling the library still serves the others; finalisation ends it */
MC_SCEN(mt_async)
{
    if (mc_arg("single", 0)) { shmem_init(); me = shmem_my_pe(); n = shmem_n_pes(); to = (me + 1) % n; }
    else if (!need_mt()) mc_fail("the multiple thread level is not provided");
    mc_leakcheck();
    ops_init(1, NULL);
    m_op[0] = pick(0);
    mc_obs(0, m_op[0]);
    shmem_barrier_all();
    mc_begin();
    if (me == 0) {
        ops_issue(m_op[0], 0, to);
        shmem_quiet();
        done(0, "after quiet");
        mc_ghost_set(1, 1);
    } else if (me == 1) mc_await(1, 1);
    if (mc_arg("both", 0)) { shmem_barrier_all(); if (me == 1) { m_op[0] = OP_FADD; ops_issue(OP_FADD, 1, 0); } }
    shmem_finalize();
    mc_end();
}
