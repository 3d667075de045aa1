/* P25: start-up and finalisation by every entry point */
#include "setup.h"
#include <stdlib.h>
#include <mpi.h>
enum { E_INIT, E_SINGLE, E_FUNNELED, E_SERIALIZED, E_MULTIPLE, E_START, E_N };
static const int lv[] = { SHMEM_THREAD_SINGLE, SHMEM_THREAD_FUNNELED, SHMEM_THREAD_SERIALIZED, SHMEM_THREAD_MULTIPLE };
static int i_op, i_fr, i_to, i_n, i_two, i_chk, i_level;
#ifdef MC_VARIANT_SINGLE
#define CAP SHMEM_THREAD_SINGLE
#elif defined(MC_VARIANT_MT) || defined(MC_VARIANT_MTASYNC)
#define CAP SHMEM_THREAD_MULTIPLE
#else
#define CAP SHMEM_THREAD_SERIALIZED
#endif
static int enter(int e, int first)
{
    int p = -77, rc, q = -77;
    switch (e) {
    case E_INIT: shmem_init(); break;
    case E_START: start_pes(first ? 0 : 3); break;
    default:
        rc = shmem_init_thread(lv[e - 1], &p);
        mc_assert((rc == 0) == (lv[e - 1] <= p), "shmem_init_thread(%d) returned %d although it provides level %d", lv[e - 1], rc, p);
        shmem_query_thread(&q);
        mc_assert(q == p, "shmem_query_thread reports level %d, initialisation reported %d", q, p);
    }
    shmem_query_thread(&q);
    return q;
}
/* after finalisation returned: everything that was pending anywhere has completed */
static void after(const char *what)
{
    int n = mc_npes();
    mc_assert(mc_ghost(0) == n, "%s returned although only %d of %d PEs have entered it", what, (int) mc_ghost(0), n);
    if (i_op < 0) return;
    char s[100];
    snprintf(s, sizeof s, "after %s returned", what);
    for (int i = 0; i <= i_two; i++) {
        int op = i ? OP_ADD : i_op;
        ops_check_local(op, i, s);
        if (ops_base(op) == ops_st) ops_check_remote(op, i, i_fr, mc_pe(), s);
        if (ops_base(op) == ops_sp) { long e[4]; ops_expect(op, i, i_fr, e); for (int k = 0; k < 4; k++) mc_assert(ops_sp[i_fr][i][k] == e[k], "%s: %s to an attached space did not complete", s, op_name[op]); }
    }
    i_chk++;
}
static void at_exit(void)
{
    after("implicit finalisation");
    mc_obs(5, 1 + i_chk);
}
MC_SYMM static long init_ps[2];
MC_SCEN(init_seq)
{
    int me = mc_pe(), n = mc_npes(), maxl = mc_arg("maxlevel", SHMEM_THREAD_MULTIPLE), full = mc_arg("full", 1);
    int e = mc_choose_all(E_N), again = full ? mc_choose_all(1 + E_N) : mc_choose_all(2) * (1 + e), how = mc_choose_all(e == E_START ? 4 : 2), pre = full ? mc_choose_all(5) : 0;
    int pend = mc_choose_all(1 + OP_BASIC);
    int cap = CAP < maxl ? CAP : maxl;
    i_op = pend - 1; i_n = n; i_to = (me + 1) % n; i_fr = (me + n - 1) % n; i_two = mc_arg("two", 1);
    mc_leakcheck();
    if (pre) { /* the program initialised MPI itself */
        int p;
        MPI_Init_thread(NULL, NULL, lv[pre - 1], &p);
        if (p < cap) cap = p;
    }
    if (e == E_START) atexit(at_exit); /* runs after the library's own handler */
    int l = enter(e, 1);
    mc_assert(l <= cap, "initialisation reports thread level %d, only %d is supported", l, cap);
    if (e >= E_SINGLE && e <= E_MULTIPLE && lv[e - 1] <= cap) mc_assert(l >= lv[e - 1], "initialisation with level %d reports only %d", lv[e - 1], l);
    if (again) { int l2 = enter(again - 1, 0); mc_assert(l2 == l, "a repeated initialisation changed the thread level from %d to %d", l, l2); }
    mc_assert(shmem_my_pe() == me && shmem_n_pes() == n, "wrong PE number or count");
    ops_init(1, NULL);
    shmem_barrier_all();
    if (mc_choose_all(2)) { /* internal caches in use */
        for (int st = 0; st < n; st++) if (me >= st) shmem_barrier(st, 0, n - st, init_ps);
        for (int k = 1; k < 4; k++) { long x[8] = { 0 }; shmem_long_iget(x, ops_st[5][0], 1, k, 2, i_to); mc_assert(x[0] == OPS_INIT, "iget after initialisation"); }
        shmem_barrier_all();
    }
    if (i_op >= 0) { ops_issue(i_op, 0, i_to); if (i_two) ops_issue(OP_ADD, 1, i_to); }
    mc_ghost_add(0, 1);
    switch (how) {
    case 0: shmem_finalize(); after("shmem_finalize"); break;
    case 1: shmem_finalize(); after("shmem_finalize"); shmem_finalize(); after("the second shmem_finalize"); break;
    case 2: break;
    case 3: shmem_finalize(); after("shmem_finalize"); break; /* and again at exit */
    }
    mc_obs(0, e); mc_obs(1, again); mc_obs(2, how); mc_obs(3, l);
}
/* interleavings of finalisation with pending operations of one or all PEs */
MC_SCEN(fin_explore)
{
    int me = mc_pe(), n = mc_npes(), implicit = mc_choose_all(2), alone = mc_choose_all(2), space = mc_arg("space", 0), two = mc_arg("two", 0);
    if (implicit) { atexit(at_exit); start_pes(0); } else shmem_init();
    if (space) {
        shmemx_space_config_t c = { .sheap_size = 1024, .num_contexts = 1, .memkind = SHMEMX_MEM_HOST };
        shmemx_space_create(c, &sp1);
        shmemx_space_attach(sp1);
        if (mc_arg("ctx", 0)) mc_assert(shmemx_space_create_ctx(sp1, 0, &cx1) == SHMEM_SUCCESS, "space_create_ctx failed");
    } else mc_leakcheck();
    ops_init(1, sp1);
    int op = space ? OP_BASIC + mc_choose_all(OP_N - OP_BASIC) : mc_choose_all(OP_BASIC);
    i_op = op; i_n = n; i_to = (me + 1) % n; i_fr = (me + n - 1) % n; i_two = two;
    if (alone && me) i_op = -1;
    if (alone && me == 1) i_op = -2;
    if (cx1) { ops_ctx = cx1; ops_use_ctx = 1; }
    shmem_barrier_all();
    mc_begin();
    if (!alone || me == 0) { ops_issue(op, 0, i_to); if (two) ops_issue(OP_ADD, 1, i_to); }
    mc_ghost_add(0, 1);
    mc_obs(0, op); mc_obs(1, implicit * 2 + alone);
    if (!implicit) {
        shmem_finalize();
        mc_assert(mc_ghost(0) == n, "shmem_finalize returned although only %d of %d PEs have entered it", (int) mc_ghost(0), n);
        if (alone && me == 1 && i_op == -2) { if (ops_base(op) == ops_st) ops_check_remote(op, 0, 0, 1, "after shmem_finalize returned on the target"); }
        if (i_op >= 0 && !alone) after("shmem_finalize");
        if (alone && me == 0) ops_check_local(op, 0, "after shmem_finalize returned");
        mc_end();
    } else if (alone) i_op = -1;
}
