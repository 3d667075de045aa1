/* P02 local completion, P03 quiet, P04 fence, P05 contexts' quiet and fence */
#include "setup.h"

/* every history of operations, quiets and fences of one PE: after a quiet everything before it is complete.
   The other PEs are in a barrier (so they serve requests). */
static void quiet_history(int explore)
{
    setup();
    int me = shmem_my_pe(), n = shmem_n_pes(), depth = mc_arg("depth", 2), nops = mc_arg("space", 0) ? OP_N : OP_BASIC;
    int first = mc_arg("first", 0), onlysp = mc_arg("onlysp", 0);
    if (explore) mc_begin();
    if (me == 0) {
        int op[OPS_MAXI], tg[OPS_MAXI], m = 0;
        ops_use_ctx = mc_arg("usectx", 0);
        for (int s = 0; s < depth; s++) {
            int c = onlysp ? OP_BASIC + mc_choose(OP_N - OP_BASIC) : mc_choose(nops + (first ? 0 : 2));
            if (c == nops && !onlysp) { shmem_quiet(); for (int i = 0; i < m; i++) { ops_check_remote(op[i], i, 0, tg[i], "after quiet"); ops_check_local(op[i], i, "after quiet"); } continue; }
            if (c == nops + 1) { shmem_fence(); continue; }
            op[m] = c;
            tg[m] = mc_choose(n);
            ops_issue(c, m, tg[m]);
            if (ops_is_blocking_fetch(c)) ops_check_local(c, m, "at return");
            m++;
        }
        shmem_quiet();
        for (int i = 0; i < m; i++) { ops_check_remote(op[i], i, 0, tg[i], "after quiet"); ops_check_local(op[i], i, "after quiet"); }
        mc_assert(mc_pending_rma(0) == 0, "quiet returned with an incomplete one-sided operation");
    }
    if (explore) { shmem_barrier_all(); mc_end(); }
    teardown();
}
MC_SCEN(quiet_hist) { quiet_history(0); }
MC_SCEN(quiet_explore) { quiet_history(1); }
/* operations to every subset of the PEs, in every order of a family, then one completion call */
MC_SCEN(quiet_spread)
{
    setup();
    int me = shmem_my_pe(), n = shmem_n_pes(), mode = mc_arg("mode", 0), rounds = mc_arg("rounds", 2);
    static const int al[] = { OP_ADD, OP_PUT, OP_PUTNBI_H, OP_FADDNBI, OP_ADD_H, OP_IPUT };
    int a = al[mc_choose_all(NELEM(al))], b = al[mc_choose_all(3)], mask = 1 + mc_choose_all((1 << n) - 1), rev = mc_choose_all(2);
    shmem_barrier_all();
    for (int r = 0; r < rounds; r++) {
        int m = r ? (1 << n) - 1 & ~mask : mask;
        if (me == 0 || mode) for (int j = 0; j < n; j++) { int q = rev ? n - 1 - j : j; if (m >> q & 1) ops_issue(j & 1 ? b : a, r, q); }
        if (mode == 0) { if (me == 0) shmem_quiet(); }
        else if (mode == 1) shmem_barrier_all();
        else if (mode == 2) { if (me & 1 || n == 1) shmem_quiet(); else shmem_barrier(0, 1, (n + 1) / 2, setup_cell); }
        const char *w = mode == 0 ? "after quiet" : mode == 1 ? "after barrier_all" : "after quiet or an active-set barrier";
        if (me == 0 || mode) for (int j = 0; j < n; j++) { int q = rev ? n - 1 - j : j; if (m >> q & 1 && (mode < 2 || me & 1 || !(q & 1))) ops_check_remote(j & 1 ? b : a, r, me, q, w); }
        shmem_barrier_all();
        if (me == 0 || mode) for (int j = 0; j < n; j++) { int q = rev ? n - 1 - j : j; if (m >> q & 1) ops_check_remote(j & 1 ? b : a, r, me, q, "after the next barrier_all"); }
    }
    teardown();
}
/* fence with operations outstanding at several PEs: the order holds at each of them */
MC_SCEN(fence_spread)
{
    setup();
    int me = shmem_my_pe(), n = shmem_n_pes(), rev = mc_choose_all(2);
    static const int al[] = { OP_ADD, OP_PUT, OP_PUTNBI_H };
    int a = al[mc_choose_all(3)], b = al[mc_choose_all(2)], mask = mc_arg("full", 0) ? (1 << n) - 2 : 2 + 2 * mc_choose_all((1 << (n - 1)) - 1);
    shmem_barrier_all();
    mc_begin();
    if (me == 0) {
        for (int j = 1; j < n; j++) { int q = rev ? n - j : j; if (mask >> q & 1) ops_issue(a, 0, q); }
        shmem_fence();
        for (int j = 1; j < n; j++) { int q = rev ? n - j : j; if (mask >> q & 1) ops_issue(b, 1, q); }
    } else if (mask >> me & 1) {
        shmem_long_wait_until(ops_base(b)[0][1], SHMEM_CMP_NE, OPS_INIT);
        ops_check_remote(a, 0, 0, me, "fence order with several targets (an operation issued after the fence is already visible)");
    }
    shmem_barrier_all();
    mc_end();
    teardown();
}
/* destroying a context completes the operations issued on it; it can be created again and used */
MC_SCEN(ctx_destroy_explore)
{
    setup();
    int me = shmem_my_pe(), n = shmem_n_pes(), op[OPS_MAXI], tg[OPS_MAXI], d = mc_arg("depth", 2);
    mc_begin();
    if (me == 0 || mc_arg("all", 0)) {
        ops_ctx = cx1; ops_use_ctx = 1;
        for (int i = 0; i < d; i++) { op[i] = OP_BASIC + mc_choose(OP_N - OP_BASIC); tg[i] = mc_choose(n); ops_issue(op[i], i, tg[i]); }
        shmem_ctx_destroy(cx1);
        for (int i = 0; i < d; i++) { ops_check_remote(op[i], i, me, tg[i], "after ctx_destroy"); ops_check_local(op[i], i, "after ctx_destroy"); }
        mc_assert(shmemx_space_create_ctx(sp1, 0, &cx1) == SHMEM_SUCCESS, "the destroyed context cannot be created again");
        ops_ctx = cx1;
        ops_issue(OP_PUT_S, 3, 1);
        shmem_ctx_quiet(cx1);
        ops_check_remote(OP_PUT_S, 3, me, 1, "after ctx_quiet");
    }
    shmem_barrier_all();
    mc_end();
    ops_use_ctx = 0;
    teardown();
}

/* all PEs issue and quiet concurrently, to each other */
MC_SCEN(quiet_all)
{
    setup();
    int me = shmem_my_pe(), n = shmem_n_pes();
    int a = mc_arg("a", -1), b = mc_arg("b", -1);
    if (a < 0) a = mc_choose_all(OP_BASIC);
    if (b < 0) b = mc_choose_all(OP_BASIC);
    mc_begin();
    ops_issue(a, 0, (me + 1) % n);
    if (b < OP_BASIC) ops_issue(b, 1, (me + n - 1) % n);
    shmem_quiet();
    ops_check_remote(a, 0, me, (me + 1) % n, "after quiet");
    ops_check_local(a, 0, "after quiet");
    if (b < OP_BASIC) { ops_check_remote(b, 1, me, (me + n - 1) % n, "after quiet"); ops_check_local(b, 1, "after quiet"); }
    shmem_barrier_all();
    mc_end();
    teardown();
}

/* fence: an operation, fence, a second operation to the same PE; the target polls the second */
static void fence_body(int use_ctx_fence)
{
    setup();
    int me = shmem_my_pe(), n = shmem_n_pes(), ctx = mc_arg("ctx", 0);
    static const int wr[] = { OP_PUT, OP_PUTNBI, OP_P, OP_IPUT, OP_PUTMEM_H, OP_PUTNBI_H, OP_ADD, OP_INC, OP_SET, OP_OR, OP_FADDNBI, OP_ADD_H, OP_XOR_H, OP_FADD };
    static const int wr_s[] = { OP_PUT_S, OP_ADD_S, OP_PUTNBI_S, OP_FADDNBI_S };
    static const int wr_m[] = { OP_PUT, OP_PUTNBI_H, OP_ADD, OP_PUT_S, OP_ADD_S, OP_PUTNBI_S, OP_FADDNBI_S }; /* default context, some objects in a space */
    const int mix = mc_arg("mix", 0), *tab = ctx ? wr_s : mix ? wr_m : wr;
    int nw = ctx ? NELEM(wr_s) : mix ? NELEM(wr_m) : NELEM(wr);
    int pre = mc_arg("pre", 0) ? mc_choose_all(4) : 0; /* history before */
    int a = mc_choose_all(nw), b = mc_choose_all(nw);
    a = tab[a];
    b = tab[b];
    int tgt = n - 1;
    if (ctx) { ops_ctx = ctx == 2 ? cx2 : cx1; ops_use_ctx = 1; }
    mc_begin();
    if (me == 0) {
        if (pre == 1) ops_issue(OP_PUT, 2, tgt);
        if (pre == 2) ops_issue(OP_ADD, 2, tgt);
        if (pre == 3) { ops_issue(OP_ADD, 2, tgt); shmem_quiet(); }
        ops_issue(a, 0, tgt);
        if (use_ctx_fence) shmem_ctx_fence(ops_ctx); else shmem_fence();
        ops_issue(b, 1, tgt);
    } else if (me == tgt) {
        long *flag = ops_base(b)[0][1];
        shmem_long_wait_until(flag, SHMEM_CMP_NE, OPS_INIT);
        ops_check_remote(a, 0, 0, me, "fence order (an operation issued after the fence is already visible)");
    }
    shmem_barrier_all();
    mc_end();
    teardown();
}
MC_SCEN(fence_order) { fence_body(0); }
MC_SCEN(fence_order_ctx) { fence_body(1); }

/* chains: operations separated by fences, optionally operations on other PEs in between and several origins; whoever
   sees the k-th operation sees all before it */
MC_SCEN(fence_chain)
{
    setup();
    int me = shmem_my_pe(), n = shmem_n_pes(), tgt = n - 1, origins = mc_arg("origins", 1), len = mc_arg("len", 3), op[OPS_MAXI];
    static const int tab[] = { OP_PUT, OP_ADD, OP_PUTNBI_H, OP_FADDNBI, OP_ADD_H, OP_PUT_S, OP_ADD_S };
    int nt = mc_arg("nt", mc_arg("space", 0) ? 7 : 5), oth = n > 2 ? mc_choose_all(3) : 0;
    for (int i = 0; i < len; i++) op[i] = tab[mc_choose_all(nt)];
    mc_begin();
    if (me < origins) {
        for (int i = 0; i < len; i++) {
            if (i) shmem_fence();
            if (oth == 1) shmem_long_atomic_add(&ops_st[me][3][i], 1, me == 0 ? 1 : 0);
            if (oth == 2) shmem_long_p(&ops_st[me][3][i], 1, me == 0 ? 1 : 0);
            ops_issue(op[i], i, tgt);
        }
    } else if (me == tgt) {
        int o = mc_choose(origins), last = 1 + mc_choose(len - 1);
        shmem_long_wait_until(ops_base(op[last])[o][last], SHMEM_CMP_NE, OPS_INIT);
        for (int i = 0; i < last; i++) ops_check_remote(op[i], i, o, me, "fence order in a chain");
    }
    shmem_barrier_all();
    for (int o = 0; o < origins; o++) for (int i = 0; i < len; i++) if (me == tgt) ops_check_remote(op[i], i, o, me, "after barrier");
    shmem_barrier_all();
    mc_end();
    teardown();
}

/* message passing through a third party: put data; quiet; put flag elsewhere */
MC_SCEN(quiet_third)
{
    setup();
    int me = shmem_my_pe();
    static const int wr[] = { OP_PUT, OP_PUTNBI_H, OP_ADD, OP_SET, OP_IPUT, OP_FADDNBI };
    int a = wr[mc_choose_all(NELEM(wr))], b = wr[mc_choose_all(NELEM(wr))];
    mc_begin();
    if (me == 0) { ops_issue(a, 0, 1); shmem_quiet(); ops_issue(b, 1, 2); }
    else if (me == 2) {
        shmem_long_wait_until(ops_base(b)[0][1], SHMEM_CMP_NE, OPS_INIT);
        ops_check_remote(a, 0, 0, 1, "quiet, then a flag on another PE");
    }
    shmem_barrier_all();
    mc_end();
    teardown();
}

/* quiet and fence on created contexts */
MC_SCEN(ctx_quiet)
{
    setup();
    int me = shmem_my_pe(), n = shmem_n_pes();
    int mode = mc_arg("fence", 0);
    if (mc_arg("explore", 0)) mc_begin();
    if (me == 0) {
        static const int al[] = { OP_PUT_S, OP_ADD_S, OP_GETNBI_S, OP_PUTNBI_S, OP_FADDNBI_S };
        int a = al[mc_choose(5)], b = al[mc_choose(5)], ta = mc_choose(n), order = mc_choose(4);
        ops_use_ctx = 1;
        /* a on cx1; b on cx2 or the default context; quiet one, then the other */
        shmem_ctx_t other = order & 1 ? cx2 : SHMEM_CTX_DEFAULT;
        if (order & 2) { ops_ctx = other; ops_issue(b, 1, n - 1); ops_ctx = cx1; ops_issue(a, 0, ta); }
        else { ops_ctx = cx1; ops_issue(a, 0, ta); ops_ctx = other; ops_issue(b, 1, n - 1); }
        (void) mode;
        shmem_ctx_quiet(cx1);
        ops_check_remote(a, 0, 0, ta, "after ctx_quiet");
        ops_check_local(a, 0, "after ctx_quiet");
        shmem_ctx_quiet(other);
        ops_check_remote(b, 1, 0, n - 1, "after ctx_quiet of the second context");
        ops_check_local(b, 1, "after ctx_quiet of the second context");
        /* once more on the used context */
        ops_ctx = cx1;
        ops_issue(b, 2, ta);
        shmem_ctx_quiet(cx1);
        ops_check_remote(b, 2, 0, ta, "after a second ctx_quiet");
        ops_check_local(b, 2, "after a second ctx_quiet");
    }
    if (mc_arg("explore", 0)) { shmem_barrier_all(); mc_end(); }
    teardown();
}

/* P02: the source may be reused once the blocking call returned; blocking gets deliver at return */
static long lsrc[8];
MC_SYMM static long ldst[16], lgot[16];
static long *lheap;
MC_SCEN(local_completion)
{
    setup();
    int me = shmem_my_pe(), n = shmem_n_pes(), expl = mc_arg("explore", 0);
    lheap = shmem_malloc(sizeof ldst);
    for (int i = 0; i < 16; i++) ldst[i] = lheap[i] = i;
    shmem_barrier_all();
    if (expl) mc_begin();
    if (me == 0) {
        int k = mc_choose(13), heap = mc_choose(2), pe = mc_choose(n);
        long *d = heap ? lheap : ldst;
        for (int i = 0; i < 8; i++) lsrc[i] = 100 + i;
        long e[16], got[4] = { -1, -1, -1, -1 }, v = -1;
        for (int i = 0; i < 16; i++) e[i] = i;
        switch (k) {
        case 0: shmem_long_put(d, lsrc, 5, pe); for (int i = 0; i < 5; i++) e[i] = 100 + i; break;
        case 1: shmem_putmem(d, lsrc, 24, pe); for (int i = 0; i < 3; i++) e[i] = 100 + i; break;
        case 2: shmem_long_iput(d, lsrc, 2, 1, 4, pe); for (int i = 0; i < 4; i++) e[2 * i] = 100 + i; break;
        case 3: shmem_long_iput(d, lsrc, 1, 2, 4, pe); for (int i = 0; i < 4; i++) e[i] = 100 + 2 * i; break;
        case 4: shmem_long_p(d, lsrc[0], pe); e[0] = 100; break;
        case 5: shmem_put64(d, lsrc, 4, pe); for (int i = 0; i < 4; i++) e[i] = 100 + i; break;
        case 6: shmem_long_get(lsrc, d, 4, pe); for (int i = 0; i < 4; i++) mc_assert(lsrc[i] == i, "get returned without its data"); break;
        case 7: shmem_getmem(lsrc, d, 16, pe); mc_assert(lsrc[0] == 0 && lsrc[1] == 1 && lsrc[2] == 102, "getmem returned without its data"); break;
        case 8: shmem_long_iget(lsrc, d, 2, 3, 3, pe); mc_assert(lsrc[0] == 0 && lsrc[2] == 3 && lsrc[4] == 6 && lsrc[1] == 101, "iget returned without its data"); break;
        case 9: v = shmem_long_g(d + 3, pe); mc_assert(v == 3, "g returned %ld", v); break;
        case 10: v = shmem_long_atomic_fetch_add(d + 3, 4, pe); mc_assert(v == 3, "fetch_add returned %ld", v); e[3] = 7; break;
        case 11: v = shmem_long_atomic_swap(d + 3, 4, pe); mc_assert(v == 3, "swap returned %ld", v); e[3] = 4; break;
        case 12: shmem_long_get_nbi(got, d + 1, 3, pe); shmem_quiet(); for (int i = 0; i < 3; i++) mc_assert(got[i] == i + 1, "get_nbi not complete after quiet"); mc_assert(got[3] == -1, "get_nbi wrote too much"); break;
        }
        for (int i = 0; i < 8; i++) lsrc[i] = -77 - i; /* the source is free to reuse */
        int second = mc_choose(3); /* ... also by the library */
        if (second == 1) shmem_long_put(d + 12, lsrc, 1, pe), e[12] = -77;
        if (second == 2) shmem_long_atomic_add(d + 12, 5, pe), e[12] = 17;
        for (int i = 0; i < 8; i++) lsrc[i] = -99;
        shmem_quiet();
        for (int i = 0; i < 16; i++) { long x = RD(d + i, pe); mc_assert(x == e[i], "source reused after return: element %d on the target is %ld, expected %ld (call %d)", i, x, e[i], k); }
    }
    if (expl) { shmem_barrier_all(); mc_end(); }
    teardown();
}
/* a value fetched by get after the remote PE's own put+quiet/barrier is current (no stale local copy) */
MC_SCEN(get_fresh)
{
    setup();
    int me = shmem_my_pe(), n = shmem_n_pes();
    int how = mc_choose_all(4);
    mc_begin();
    if (me == 0) {
        long v = shmem_long_g(&ldst[0], 1);
        mc_assert(v == 0 || v == 9, "g returned %ld", v);
        shmem_long_wait_until(&lgot[0], SHMEM_CMP_EQ, 1);
        switch (how) {
        case 0: v = shmem_long_g(&ldst[0], 1); break;
        case 1: shmem_long_get(&v, &ldst[0], 1, 1); break;
        case 2: v = shmem_long_atomic_fetch(&ldst[0], 1); break;
        case 3: shmem_long_get_nbi(&v, &ldst[0], 1, 1); shmem_quiet(); break;
        }
        mc_assert(v == 9, "a get issued after the flag arrived returned the stale value %ld", v);
    } else if (me == 1) {
        ldst[0] = 9;
        shmem_long_p(&lgot[0], 1, 0);
    }
    (void) n;
    shmem_barrier_all();
    mc_end();
    teardown();
}
/* P01: several PEs work on the same target at the same time, in every interleaving; each transfer moves its own data */
MC_SCEN(rma_conc)
{
    setup();
    int me = shmem_my_pe(), n = shmem_n_pes(), mask = mc_arg("ops", 0x3ff), all = mc_arg("all", 0), origins = mc_arg("origins", n - 1), cnt = mc_arg("cnt", 1), l[OP_N], nl = 0, op[9][2];
    for (int i = 0; i < OP_N; i++) if (mask >> i & 1) l[nl++] = i;
    for (int o = 0; o < origins; o++) for (int i = 0; i < cnt; i++) op[o][i] = l[o && !all ? (mc_choose_all(2) ? 0 : nl - 1) : mc_choose_all(nl)];
    shmem_barrier_all();
    mc_begin();
    for (int i = 0; i < cnt && me < origins; i++) ops_issue(op[me][i], i, n - 1);
    if (me < origins) shmem_quiet();
    for (int i = 0; i < cnt && me < origins; i++) { ops_check_local(op[me][i], i, "concurrent transfers"); ops_check_remote(op[me][i], i, me, n - 1, "after quiet, with transfers by other PEs going on"); }
    shmem_barrier_all();
    mc_end();
    if (me == n - 1)
        for (int o = 0; o < ops_rows; o++) for (int i = 0; i < OPS_MAXI; i++) {
            int h = -1;
            long e[4];
            if (o < origins && i < cnt) h = op[o][i];
            for (int b = 0; b < 2; b++) {
                ops_slot_t *s = b ? ops_hp[o] : ops_st[o];
                for (int k = 0; k < 4; k++) e[k] = OPS_INIT + k;
                if (h >= 0 && ops_base(h)[o] == s) ops_expect(h, i, o, e);
                for (int k = 0; k < 4; k++) mc_assert(s[i][k] == e[k], "after concurrent transfers: slot %d of PE %d (%s), element %d is %ld, expected %ld", i, o, b ? "heap" : "static", k, s[i][k], e[k]);
            }
        }
    teardown();
}
