/* P10 barriers, P11 sync */
#include "setup.h"
MC_SYMM static long psync[8][4];
MC_SYMM static long sv[4];
static void call_barrier(set_t s, int n, int k, int rnd, shmem_team_t team)
{
    switch (k) {
    case 0: shmem_barrier_all(); break;
    case 1: shmem_barrier(s.start, s.log, s.size, psync[rnd]); break;
    case 2: shmem_sync_all(); break;
    case 3: shmem_sync_aset(s.start, s.log, s.size, psync[rnd]); break;
    case 4: mc_assert(shmem_team_sync(team) == SHMEM_SUCCESS, "shmem_team_sync failed"); break;
    case 5: shmem_sync(s.start, s.log, s.size, psync[rnd]); break;
    case 6: mc_assert(shmem_sync(team) == SHMEM_SUCCESS, "shmem_sync(team) failed"); break;
    }
}
/* rounds of barriers over (changing) sets; before each, every participant issues an operation to some PE */
static void barrier_rounds(int explore)
{
    setup();
    int me = shmem_my_pe(), n = shmem_n_pes(), rounds = mc_arg("rounds", 2), whole = mc_arg("whole", 0), nops = mc_arg("ops", 1), sp = mc_arg("space", 0);
    set_t all[96], set[4];
    int na = sets_all(n, all), op[4], dt[4], kind[4];
    for (int r = 0; r < rounds; r++) {
        kind[r] = whole == 2 ? mc_choose_all(2) : whole ? 0 : 1;
        set[r] = kind[r] == 0 ? (set_t) { 0, 0, n } : all[mc_choose_all(na)];
        op[r] = mc_arg("op", -1);
        if (op[r] < 0) op[r] = nops == 1 ? (const int[]) { OP_PUT, OP_ADD, OP_PUTNBI_H, OP_GETNBI }[mc_choose_all(4)] : mc_choose_all(sp ? OP_N : OP_BASIC);
        dt[r] = mc_arg("dt", -1) >= 0 ? mc_arg("dt", 0) : mc_choose_all(n); /* distance of the target */
    }
    if (explore) mc_begin();
    for (int r = 0; r < rounds; r++) {
        if (set_rank(set[r], me) < 0) continue;
        if (op[r] < OP_N) ops_issue(op[r], r, (me + dt[r]) % n);
        mc_ghost_add(r, 1);
        call_barrier(set[r], n, kind[r], r, 0);
        mc_assert(mc_ghost(r) == set[r].size, "PE %d left barrier %d (set %d,%d,%d) when only %d PEs had entered it", me, r, set[r].start, set[r].log, set[r].size, (int) mc_ghost(r));
        for (int i = 0; i < set[r].size; i++) { int o = set_pe(set[r], i); ops_check_remote(op[r], r, o, (o + dt[r]) % n, "after the barrier"); }
        ops_check_local(op[r], r, "after the barrier");
    }
    shmem_barrier_all();
    if (explore) mc_end();
    teardown();
}
MC_SCEN(barrier_seq) { barrier_rounds(0); }
MC_SCEN(barrier_explore) { barrier_rounds(1); }
/* rounds of syncs: nobody leaves early; earlier local stores are visible to remote reads */
static void sync_rounds(int explore)
{
    setup();
    int me = shmem_my_pe(), n = shmem_n_pes(), rounds = mc_arg("rounds", 2), kinds = mc_arg("kinds", 5);
    set_t all[96], set[4];
    int na = sets_all(n, all), kind[4], how[4];
    shmem_team_t team[4] = { 0 };
    for (int r = 0; r < rounds; r++) {
        kind[r] = kinds == 5 ? 2 + mc_choose_all(5) : kinds;
        set[r] = kind[r] == 2 ? (set_t) { 0, 0, n } : all[mc_choose_all(na)];
        how[r] = mc_arg("how", -1) >= 0 ? mc_arg("how", 0) : mc_choose_all(3);
        if (kind[r] == 4 || kind[r] == 6) {
            if (set[r].size == n && mc_arg("world", 1)) team[r] = SHMEM_TEAM_WORLD;
            else mc_assert(shmem_team_split_strided(SHMEM_TEAM_WORLD, set[r].start, 1 << set[r].log, set[r].size, NULL, 0, &team[r]) == 0, "split failed");
        }
    }
    shmem_barrier_all();
    if (explore) mc_begin();
    for (int r = 0; r < rounds; r++) {
        int rk = set_rank(set[r], me);
        if (rk < 0) continue;
        sv[r] = 100 + r + me;
        if (how[r] == 2) ops_st[0][0][r] = 500 + r + me;
        mc_ghost_add(r, 1);
        call_barrier(set[r], n, kind[r], r, team[r]);
        mc_assert(mc_ghost(r) == set[r].size, "PE %d left sync %d when only %d of %d PEs had entered it", me, r, (int) mc_ghost(r), set[r].size);
        int nb = set_pe(set[r], (rk + 1) % set[r].size);
        long v;
        if (how[r] == 0) v = shmem_long_g(&sv[r], nb);
        else if (how[r] == 1) v = shmem_long_atomic_fetch(&sv[r], nb);
        else { shmem_long_get(&v, &sv[r], 1, nb); mc_assert(shmem_long_g(&ops_st[0][0][r], nb) == 500 + r + nb, "a store before the sync is not visible after it"); }
        mc_assert(v == 100 + r + nb, "a store before the sync is not visible after it: read %ld", v);
    }
    shmem_barrier_all();
    if (explore) mc_end();
    for (int r = 0; r < rounds; r++) if (team[r] && team[r] != SHMEM_TEAM_WORLD) shmem_team_destroy(team[r]);
    teardown();
}
MC_SCEN(sync_seq) { sync_rounds(0); }
MC_SCEN(sync_explore) { sync_rounds(1); }
