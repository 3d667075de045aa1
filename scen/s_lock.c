/* P12 mutual exclusion and progress of locks, P13 visibility of updates under the lock */
#include "setup.h"
MC_SYMM static long lk[3] = { 0 };
MC_SYMM static long lcnt[9], lflag[9];
static long *lkh;
/* ghosts: 0 holders, 1 interested PEs, 2 starts of interest, 3 acquisitions */
static int acquire(long *L, int mode)
{
    mc_ghost_add(1, 1);
    int64_t s0 = mc_ghost_add(2, 1);
    if (mode == 0) shmem_set_lock(L);
    else {
        for (int t = 0; ; t++) {
            int others = mc_ghost(1) > 1;
            int rc = shmem_test_lock(L);
            if (rc == 0) break;
            mc_assert(rc == 1, "test_lock returned %d", rc);
            mc_assert(others || mc_ghost(2) != s0, "test_lock failed although no other PE holds or wants the lock");
            if (mode == 1 || t >= 1) { mc_ghost_add(1, -1); return 0; }
            s0 = mc_ghost(2);
        }
    }
    mc_assert(mc_ghost_add(0, 1) == 1, "two PEs hold the lock (acquired by %s)", mode ? "test_lock" : "set_lock");
    mc_ghost_add(3, 1);
    return 1;
}
static void release(long *L)
{
    mc_ghost_add(0, -1);
    shmem_clear_lock(L);
    mc_ghost_add(1, -1);
}
static long *which_lock(void)
{
    lkh = shmem_malloc(24);
    lkh[0] = lkh[1] = lkh[2] = 0;
    lk[0] = lk[2] = lkh[0] = lkh[2] = 0x7777777777777777L;
    lk[1] = 0;
    return mc_arg("heap", 0) ? lkh + 1 : lk + 1;
}
MC_SCEN(lock_mutex)
{
    shmem_init();
    int me = shmem_my_pe(), n = shmem_n_pes(), rounds = mc_arg("rounds", 1), nt = mc_arg("actors", n), mask = mc_arg("mask", 0), idx = -1;
    if (!mask) mask = ((1 << nt) - 1) << mc_arg("from", 0);
    nt = __builtin_popcount(mask);
    if (mask >> me & 1) idx = __builtin_popcount(mask & ((1 << me) - 1));
    int mode[9][3];
    for (int p = 0; p < nt; p++) for (int r = 0; r < rounds; r++) mode[p][r] = mc_arg("mode", -1) >= 0 ? mc_arg("mode", 0) : mc_choose_all(3);
    long *L = which_lock();
    shmem_barrier_all();
    mc_begin();
    if (idx >= 0)
        for (int r = 0; r < rounds; r++)
            if (acquire(L, mode[idx][r])) {
                mc_point();
                if (mc_arg("again", 0)) mc_assert(shmem_test_lock(L) == 1, "test_lock took a lock that is set (the caller itself holds it)");
                release(L);
            }
    shmem_barrier_all();
    mc_end();
    mc_assert(L[-1] == 0x7777777777777777L && L[1] == 0x7777777777777777L, "the lock's neighbours were changed");
    if (me == 0) {
        mc_obs(0, mc_ghost(3));
        /* the lock is free again and still works */
        mc_assert(shmem_test_lock(L) == 0, "the lock is not free after everybody released it");
        shmem_clear_lock(L);
    }
    shmem_barrier_all();
    shmem_set_lock(L);
    shmem_clear_lock(L);
    shmem_barrier_all();
    shmem_finalize();
}
/* a sequence of phases separated by barriers; in each of them up to `actors` PEs take the lock once, by any mix of set_lock and
 * test_lock. What one phase leaves behind in the lock must not matter in the next. */
MC_SCEN(lock_phases)
{
    shmem_init();
    int me = shmem_my_pe(), n = shmem_n_pes(), phases = mc_arg("phases", 2), na = mc_arg("actors", 2);
    long *L = which_lock();
    shmem_barrier_all();
    mc_begin();
    for (int ph = 0; ph < phases; ph++) {
        int mode[9], left = na;
        for (int p = 0; p < n; p++) { mode[p] = left ? mc_choose_all(3) : 0; left -= mode[p] != 0; }
        if (mode[me] && acquire(L, mode[me] - 1)) { mc_point(); release(L); }
        shmem_barrier_all();
        if (me == 0) { mc_ghost_set(2, 0); mc_ghost_set(3, 0); }
        shmem_barrier_all();
    }
    mc_end();
    mc_assert(L[-1] == 0x7777777777777777L && L[1] == 0x7777777777777777L, "the lock's neighbours were changed");
    shmem_barrier_all();
    shmem_finalize();
}
/* test_lock does not block while another PE holds the lock until the tester has returned */
MC_SCEN(lock_test_nonblocking)
{
    shmem_init();
    int me = shmem_my_pe(), n = shmem_n_pes();
    int holder = mc_choose_all(n), how = mc_choose_all(2);
    long *L = which_lock();
    shmem_barrier_all();
    mc_begin();
    if (me == holder) {
        if (how) shmem_set_lock(L); else mc_assert(shmem_test_lock(L) == 0, "test_lock of a free lock failed");
        for (int p = 0; p < n; p++) if (p != me) shmem_long_p(&lflag[0], 1, p);
        if (n > 3) shmem_quiet();
        for (int p = 0; p < n; p++) if (p != me) shmem_long_wait_until(&lflag[p], SHMEM_CMP_EQ, 2);
        shmem_clear_lock(L);
        for (int p = 0; p < n; p++) if (p != me) shmem_long_p(&lcnt[0], 1, p);
        if (n > 3) shmem_quiet();
    } else {
        shmem_long_wait_until(&lflag[0], SHMEM_CMP_EQ, 1);
        mc_assert(shmem_test_lock(L) == 1, "test_lock succeeded while PE %d holds the lock", holder);
        shmem_long_p(&lflag[me], 2, holder);
        if (n > 3) shmem_quiet();
        shmem_long_wait_until(&lcnt[0], SHMEM_CMP_EQ, 1);
        if (n == 2) mc_assert(shmem_test_lock(L) == 0, "test_lock failed after the release");
        else shmem_set_lock(L);
        shmem_clear_lock(L);
    }
    shmem_barrier_all();
    mc_end();
    shmem_finalize();
}
/* two locks, nested in the same order */
MC_SCEN(lock_two)
{
    shmem_init();
    int n = shmem_n_pes();
    long *L = which_lock();
    lk[2] = 0; lkh[2] = 0;
    shmem_barrier_all();
    mc_begin();
    shmem_set_lock(L);
    mc_assert(mc_ghost_add(0, 1) == 1, "two PEs hold the first lock");
    shmem_set_lock(L + 1);
    mc_assert(mc_ghost_add(1, 1) == 1, "two PEs hold the second lock");
    mc_ghost_add(0, -1);
    shmem_clear_lock(L);
    mc_ghost_add(1, -1);
    shmem_clear_lock(L + 1);
    shmem_barrier_all();
    mc_end();
    (void) n;
    shmem_finalize();
}
/* counters protected by the lock: every increment must survive, and the holder sees its predecessor's updates */
MC_SYMM static long pc[4];
static long *pch;
static long pc_read(long *c, int how, int pe)
{
    long v = -1;
    switch (how) {
    case 0: case 4: case 6: v = shmem_long_g(c, pe); break;
    case 1: case 7: shmem_long_get(&v, c, 1, pe); break;
    case 2: v = shmem_long_atomic_fetch(c, pe); break;
    case 3: shmem_long_iget(&v, c, 1, 1, 1, pe); break;
    case 5: shmem_long_get_nbi(&v, c, 1, pe); shmem_quiet(); break;
    }
    return v;
}
static void pc_write(long *c, int how, long v, long old, int pe)
{
    static long src[4];
    src[0] = v;
    switch (how) {
    case 0: shmem_long_p(c, v, pe); break;
    case 1: shmem_long_put(c, src, 1, pe); break;
    case 2: shmem_long_atomic_set(c, v, pe); break;
    case 3: shmem_long_iput(c, src, 2, 2, 1, pe); break;
    case 4: shmem_long_atomic_add(c, v - old, pe); break;
    case 5: shmem_long_put_nbi(c, src, 1, pe); break;
    case 6: shmem_long_atomic_inc(c, pe); break;
    case 7: shmem_putmem_nbi(c, src, sizeof(long), pe); break;
    }
}
MC_SCEN(lock_counter)
{
    shmem_init();
    int me = shmem_my_pe(), n = shmem_n_pes(), rounds = mc_arg("rounds", 1), nt = mc_arg("actors", n);
    int how[9], owner = mc_arg("owner", -1) >= 0 ? mc_arg("owner", 0) : mc_choose_all(n), local = mc_arg("local", 0);
    for (int p = 0; p < nt; p++) how[p] = mc_choose_all(mc_arg("hows", 8));
    int mode = mc_arg("mode", 0);
    long *L = which_lock();
    pch = shmem_malloc(sizeof pc);
    long *c = mc_arg("heap", 0) ? pch : pc;
    c[0] = c[1] = 0;
    shmem_barrier_all();
    mc_begin();
    int got = 0;
    if (me < nt)
        for (int r = 0; r < rounds; r++) {
            if (mode) { if (shmem_test_lock(L)) continue; } else shmem_set_lock(L);
            got++;
            int64_t k = mc_ghost_add(4, 1);
            long v;
            if (local && me == owner) v = mc_read(c); else v = pc_read(c, how[me], owner);
            mc_assert(v == k - 1, "the holder of the lock reads %ld; its predecessors left %ld there (update kind %d)", v, (long) k - 1, how[me]);
            if (local && me == owner) *(volatile long *) c = v + 1; else pc_write(c, how[me], v + 1, v, owner);
            mc_point();
            shmem_clear_lock(L);
        }
    shmem_barrier_all();
    mc_end();
    if (me == owner) mc_assert(c[0] == mc_ghost(4) && c[1] == 0, "the counter is %ld after %ld locked increments", c[0], (long) mc_ghost(4));
    shmem_finalize();
}
