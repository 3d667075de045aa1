/* P08: PE A needs PE B's service while B (and the others) are in any blocking call */
#include "setup.h"
MC_SYMM static long bps[4], bx[8], blk_lock, bflag[4];
MC_SYMM static int bsrc[64], bdst[64], bw[64];
static shmemx_space_t bsp;
static shmemx_space_config_t bspc = { .sheap_size = 512, .num_contexts = 1, .memkind = SHMEMX_MEM_HOST };
static long *bheap, *bspm;
static shmem_team_t bteam, bteam2;
enum { B_BARRIER_ALL, B_SYNC_ALL, B_BARRIER, B_SYNC, B_TBCAST, B_TCOLLECT, B_TFCOLLECT, B_TA2A, B_TA2AS, B_TREDUCE, B_BCAST, B_COLLECT, B_REDUCE, B_A2A, B_MALLOC, B_FREE, B_REALLOC, B_ALIGN, B_CALLOC,
    B_SPLIT, B_SPLIT2D, B_TDESTROY, B_TSYNC, B_SCREATE, B_SATTACH, B_SDETACH, B_SDESTROY, B_SMALLOC, B_SFREE, B_LOCK, B_WAIT, B_TESTLOOP, B_FETCH, B_QUIET, B_GET, B_FINALIZE, B_TBCASTV, B_A2AS, B_FCOLLECT, B_SCTX, B_HINTS, B_BARRIER_SUB, B_N };
static const char *bn[] = { "barrier_all", "sync_all", "barrier", "sync", "team broadcast", "team collect", "team fcollect", "team alltoall", "team alltoalls", "team reduce", "broadcast", "collect", "reduction", "alltoall", "malloc", "free", "realloc", "align", "calloc",
    "team_split_strided", "team_split_2d", "team_destroy", "team_sync", "space_create", "space_attach", "space_detach", "space_destroy", "space_malloc", "space free", "set_lock", "wait_until", "test loop", "fetch", "quiet", "get", "finalize", "team collect (sizes differ)", "alltoalls", "fcollect", "ctx create", "malloc_with_hints", "subset barrier" };
/* what every PE needs before the blocking call */
static void blk_prepare(int k)
{
    int n = shmem_n_pes();
    if (k == B_SATTACH || k == B_SDETACH || k == B_SDESTROY || k == B_SMALLOC || k == B_SFREE || k == B_SCTX) {
        shmemx_space_create(bspc, &bsp);
        if (k != B_SATTACH) shmemx_space_attach(bsp);
        if (k == B_SFREE) bspm = shmemx_space_malloc(bsp, 32);
        if (k == B_SDESTROY) shmemx_space_detach(bsp);
    }
    if (k == B_FREE || k == B_REALLOC) bheap = shmem_malloc(64);
    if (k == B_TDESTROY || k == B_TSYNC) mc_assert(shmem_team_split_strided(SHMEM_TEAM_WORLD, 0, 1, n, NULL, 0, &bteam) == 0, "split");
}
/* the blocking call; A is the PE that arrives late */
static void blk_call(int k, int A)
{
    int me = shmem_my_pe(), n = shmem_n_pes();
    long v;
    switch (k) {
    case B_BARRIER_ALL: shmem_barrier_all(); break;
    case B_SYNC_ALL: shmem_sync_all(); break;
    case B_BARRIER: shmem_barrier(0, 0, n, bps); break;
    case B_SYNC: shmem_sync_aset(0, 0, n, bps); break;
    case B_BARRIER_SUB: if (me < 2) shmem_barrier(0, 0, 2, bps); break;
    case B_TBCAST: shmem_int_broadcast(SHMEM_TEAM_WORLD, bdst, bsrc, 3, A); break;
    case B_TCOLLECT: shmem_int_collect(SHMEM_TEAM_WORLD, bdst, bsrc, 2); break;
    case B_TBCASTV: shmem_int_collect(SHMEM_TEAM_WORLD, bdst, bsrc, me); break;
    case B_TFCOLLECT: shmem_int_fcollect(SHMEM_TEAM_WORLD, bdst, bsrc, 2); break;
    case B_TA2A: shmem_int_alltoall(SHMEM_TEAM_WORLD, bdst, bsrc, 2); break;
    case B_TA2AS: shmem_int_alltoalls(SHMEM_TEAM_WORLD, bdst, bsrc, 2, 2, 2); break;
    case B_TREDUCE: shmem_int_sum_reduce(SHMEM_TEAM_WORLD, bdst, bsrc, 2); break;
    case B_BCAST: shmem_broadcast32(bdst, bsrc, 2, A, 0, 0, n, bps); break;
    case B_COLLECT: shmem_collect32(bdst, bsrc, 1 + me, 0, 0, n, bps); break;
    case B_FCOLLECT: if (me < 2) shmem_fcollect32(bdst, bsrc, 2, 0, 0, 2, bps); break;
    case B_REDUCE: if (me < 2) shmem_int_max_to_all(bdst, bsrc, 2, 0, 0, 2, bw, bps); break;
    case B_A2A: if (me < 2) shmem_alltoall64(bdst, bsrc, 2, 0, 0, 2, bps); break;
    case B_A2AS: if (me < 2) shmem_alltoalls64(bdst, bsrc, 2, 1, 2, 0, 0, 2, bps); break;
    case B_MALLOC: mc_assert(shmem_malloc(40) != NULL, "malloc"); break;
    case B_HINTS: mc_assert(shmem_malloc_with_hints(40, SHMEM_MALLOC_ATOMICS_REMOTE) != NULL, "malloc_with_hints"); break;
    case B_FREE: shmem_free(bheap); break;
    case B_REALLOC: mc_assert(shmem_realloc(bheap, 200) != NULL, "realloc"); break;
    case B_ALIGN: mc_assert(shmem_align(64, 40) != NULL, "align"); break;
    case B_CALLOC: mc_assert(shmem_calloc(3, 8) != NULL, "calloc"); break;
    case B_SPLIT: mc_assert(shmem_team_split_strided(SHMEM_TEAM_WORLD, 0, 1, n, NULL, 0, &bteam) == 0, "split"); break;
    case B_SPLIT2D: mc_assert(shmem_team_split_2d(SHMEM_TEAM_WORLD, 2, NULL, 0, &bteam, NULL, 0, &bteam2) == 0, "split2d"); break;
    case B_TDESTROY: shmem_team_destroy(bteam); break;
    case B_TSYNC: mc_assert(shmem_team_sync(bteam) == 0, "team_sync"); break;
    case B_SCREATE: shmemx_space_create(bspc, &bsp); break;
    case B_SATTACH: shmemx_space_attach(bsp); break;
    case B_SDETACH: shmemx_space_detach(bsp); break;
    case B_SDESTROY: shmemx_space_destroy(bsp); break;
    case B_SMALLOC: bspm = shmemx_space_malloc(bsp, 16); mc_assert(bspm != NULL, "space_malloc"); break;
    case B_SFREE: shmem_free(bspm); break;
    case B_SCTX: { shmem_ctx_t c; mc_assert(shmemx_space_create_ctx(bsp, 0, &c) == 0, "ctx"); shmem_ctx_destroy(c); break; }
    case B_LOCK: shmem_set_lock(&blk_lock); shmem_clear_lock(&blk_lock); break;
    case B_WAIT: if (me == A) { for (int p = 0; p < n; p++) if (p != me) shmem_long_p(&bflag[0], 1, p); } else shmem_long_wait_until(&bflag[0], SHMEM_CMP_EQ, 1); break;
    case B_TESTLOOP: if (me == A) { for (int p = 0; p < n; p++) if (p != me) shmem_long_atomic_set(&bflag[0], 1, p); } else while (!shmem_long_test(&bflag[0], SHMEM_CMP_EQ, 1)) mc_point(); break;
    case B_FETCH: v = shmem_long_atomic_fetch_add(&bx[4 + me], 1, (me + 1) % n); mc_assert(v == 0, "fetched %ld", v); break;
    case B_QUIET: shmem_long_atomic_add(&bx[4 + me], 1, (me + 1) % n); shmem_quiet(); break;
    case B_GET: shmem_long_get(&v, &bx[4], 1, (me + 1) % n); break;
    case B_FINALIZE: break;
    }
}
static void blk_cleanup(int k)
{
    if (k == B_SCREATE || k == B_SATTACH || k == B_SDETACH || k == B_SMALLOC || k == B_SFREE || k == B_SCTX) {
        if (k == B_SMALLOC) shmem_free(bspm);
        if (k != B_SCREATE && k != B_SDETACH) shmemx_space_detach(bsp);
        shmemx_space_destroy(bsp);
    }
    if (k == B_SPLIT || k == B_SPLIT2D || k == B_TSYNC) { shmem_team_destroy(bteam); shmem_team_destroy(bteam2); }
}
static const char *opn[] = { "fetch_add", "add+quiet", "get", "put+quiet", "iget", "add+fence+put+quiet", "get_nbi+quiet", "fetch_add_nbi+quiet", "add (no quiet)", "put (no quiet)" };
static void svc_op(int op, int B)
{
    long v = -1, e[3] = { 7, 8, 9 };
    switch (op) {
    case 0: v = shmem_long_atomic_fetch_add(&bx[0], 5, B); mc_assert(v == 3, "fetch_add returned %ld", v); break;
    case 1: shmem_long_atomic_add(&bx[0], 5, B); shmem_quiet(); mc_assert(RD(&bx[0], B) == 8, "add not complete after quiet"); break;
    case 2: shmem_long_get(&v, &bx[0], 1, B); mc_assert(v == 3, "get returned %ld", v); break;
    case 3: shmem_long_put(&bx[1], e, 3, B); shmem_quiet(); mc_assert(RD(&bx[3], B) == 9, "put not complete after quiet"); break;
    case 4: { long g[4]; shmem_long_iget(g, &bx[0], 1, 2, 2, B); mc_assert(g[0] == 3, "iget returned %ld", g[0]); break; }
    case 5: shmem_long_atomic_add(&bx[0], 5, B); shmem_fence(); shmem_long_p(&bx[1], 4, B); shmem_quiet(); mc_assert(RD(&bx[0], B) == 8 && RD(&bx[1], B) == 4, "not complete after quiet"); break;
    case 6: shmem_long_get_nbi(&v, &bx[0], 1, B); shmem_quiet(); mc_assert(v == 3, "get_nbi returned %ld", v); break;
    case 7: shmem_long_atomic_fetch_add_nbi(&v, &bx[0], 5, B); shmem_quiet(); mc_assert(v == 3, "fetch_add_nbi returned %ld", v); break;
    case 8: shmem_long_atomic_add(&bx[0], 5, B); break;
    case 9: shmem_long_put(&bx[1], e, 3, B); break;
    }
}
MC_SCEN(progress)
{
    shmem_init();
    int me = shmem_my_pe(), n = shmem_n_pes(), explore = mc_arg("explore", 1);
    int k = mc_choose_all(B_N), A = mc_arg("A", -1) >= 0 ? mc_arg("A", 0) : mc_choose_all(n), op = mc_arg("op", -1) >= 0 ? mc_arg("op", 0) : mc_choose_all(10);
    int B = (A + mc_arg("dist", 1)) % n;
    memset(bx, 0, sizeof bx);
    bx[0] = 3;
    blk_lock = 0;
    blk_prepare(k);
    shmem_barrier_all();
    if (explore) mc_begin();
    if (me == A) {
        int hold = k == B_LOCK && mc_arg("hold", 1);
        if (hold) {
            shmem_set_lock(&blk_lock);
            for (int p = 0; p < n; p++) if (p != me) shmem_long_p(&bflag[1], 1, p);
        }
        svc_op(op, B);
        if (hold) shmem_clear_lock(&blk_lock);
        else blk_call(k, A);
    } else {
        if (k == B_LOCK && mc_arg("hold", 1)) shmem_long_wait_until(&bflag[1], SHMEM_CMP_EQ, 1);
        blk_call(k, A);
    }
    if (k != B_FINALIZE) {
        shmem_barrier_all();
        if (op == 0 || op == 1 || op == 5 || op == 7 || op == 8) mc_assert(RD(&bx[0], B) == 8, "%s during %s is lost", opn[op], bn[k]);
        if (op == 3 || op == 9) mc_assert(RD(&bx[3], B) == 9, "%s during %s is lost", opn[op], bn[k]);
        shmem_barrier_all();
        if (explore) mc_end();
        blk_cleanup(k);
    }
    shmem_finalize();
    if (k == B_FINALIZE && explore) mc_end();
}
