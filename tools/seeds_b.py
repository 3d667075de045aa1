import os as _os
SEEDS = []
def S(**k): SEEDS.append(k)
_M = {}
def m(name, props, file, *edits): _M[name] = [(file, o, n) for o, n in edits]
for _f in ('mutants_a.py', 'mutants_b.py'):
    exec(open('/verif/tools/' + _f).read())

S(id='amput-early-return', prop='P02', n=2, env={'OSHMPI_RMA_DBG_MODE': 'am'},
  edits=[('src/internal/rma_am_impl.h', '''                             OSHMPI_am.comm, &reqs[1]));
    OSHMPI_am_progress_mpi_waitall(2, reqs, MPI_STATUS_IGNORE);

    OSHMPI_DBGMSG
        ("packet type %d, sobj_handle 0x%x, target %d, bytes %ld, addr %p, disp 0x%lx, ptag %d\\n",
         pkt.type, put_pkt->sobj_handle, pe, put_pkt->bytes,''', '''                             OSHMPI_am.comm, &reqs[1]));
    if (put_pkt->bytes > 32768) {
        /* Large data: do not block, the flush at quiet completes it. */
        OSHMPI_CALLMPI(MPI_Request_free(&reqs[1]));
        OSHMPI_am_progress_mpi_waitall(1, reqs, MPI_STATUS_IGNORE);
    } else
        OSHMPI_am_progress_mpi_waitall(2, reqs, MPI_STATUS_IGNORE);

    OSHMPI_DBGMSG
        ("packet type %d, sobj_handle 0x%x, target %d, bytes %ld, addr %p, disp 0x%lx, ptag %d\\n",
         pkt.type, put_pkt->sobj_handle, pe, put_pkt->bytes,''')],
  src='''
#define N 1000000
static char dst[N]; static char src[N];
int main(void) {
    shmem_init();
    int me = shmem_my_pe();
    memset(src, 1, N);
    shmem_barrier_all();
    if (me == 0) {
        shmem_putmem(dst, src, N, 1);
        memset(src, 2, N);         /* the source may be reused at once */
        shmem_quiet();
    } else usleep(300000);
    shmem_barrier_all();
    if (me == 1) for (int i = 0; i < N; i++) CHECK(dst[i] == 1);
    shmem_barrier_all();
    shmem_finalize();
    return 0;
}''', needs='active-message puts of more than 32 KiB whose source buffer is overwritten right after the call',
  breaks='shmem_put returns while the library still reads the source buffer')

S(id='am-ldouble-half', prop='P01', n=2, env={'OSHMPI_RMA_DBG_MODE': 'am'},
  edits=[('src/internal/am_impl.c', '[OSHMPI_AM_MPI_LONG_DOUBLE] = MPI_LONG_DOUBLE;', '[OSHMPI_AM_MPI_LONG_DOUBLE] = MPI_DOUBLE;')],
  src='''
static long double dst[8];
int main(void) {
    shmem_init();
    int me = shmem_my_pe();
    long double src[3] = { 1.25L, 2.5L, 3.75L };
    for (int i = 0; i < 8; i++) dst[i] = -1;
    shmem_barrier_all();
    shmem_longdouble_iput(dst, src, 2, 1, 3, 1 - me);
    shmem_barrier_all();
    for (int i = 0; i < 3; i++) CHECK(dst[2 * i] == src[i] && dst[2 * i + 1] == -1);
    shmem_finalize();
    return 0;
}''', timeout=20, needs='strided transfers of long double by active messages',
  breaks='the target unpacks long double elements with the type of double')

S(id='ctx-quiet-skips-am', prop='P05', n=2, edits=[('src/internal/am_impl.h', '''OSHMPI_am_flush_all(shmem_ctx_t ctx)
{
    /* No AM flush is needed if direct AMO is enabled and
     * direct RMA is set at configure. */
    if (OSHMPI_ENABLE_DIRECT_AMO_RUNTIME && OSHMPI_ENABLE_DIRECT_RMA_CONFIG)''', '''OSHMPI_am_flush_all(shmem_ctx_t ctx)
{
    /* No AM flush is needed if direct AMO is enabled and
     * direct RMA is set at configure, or if the context has its own window. */
    if ((OSHMPI_ENABLE_DIRECT_AMO_RUNTIME && OSHMPI_ENABLE_DIRECT_RMA_CONFIG)
        || ctx != SHMEM_CTX_DEFAULT)''')],
  src='''
int main(void) {
    shmem_init();
    int me = shmem_my_pe();
    shmemx_space_t s; shmem_ctx_t c;
    shmemx_space_config_t cf = { .sheap_size = 4096, .num_contexts = 1, .memkind = SHMEMX_MEM_HOST };
    shmemx_space_create(cf, &s); shmemx_space_attach(s);
    CHECK(shmemx_space_create_ctx(s, 0, &c) == 0);
    int *x = shmemx_space_malloc(s, 64), got;
    x[0] = 0;
    shmem_barrier_all();
    if (me == 0) {
        shmem_ctx_int_atomic_add(c, x, 5, 1);
        shmem_ctx_quiet(c);
        shmem_int_get(&got, x, 1, 1);
        CHECK(got == 5);
    } else usleep(300000);
    shmem_barrier_all();
    shmem_ctx_destroy(c);
    shmem_free(x);
    shmemx_space_detach(s); shmemx_space_destroy(s);
    shmem_finalize();
    return 0;
}''', needs='atomics on a created context whose target makes no progress between issue and ctx_quiet',
  breaks='shmem_ctx_quiet does not complete atomics that travel as active messages')

S(id='cswap-two-steps', prop='P06', n=3, env={'OSHMPI_AMO_DBG_MODE': 'direct'},
  edits=[('src/internal/amo_impl.h', '''    OSHMPI_CALLMPI(MPI_Compare_and_swap
                   (origin_addr, compare_addr, result_addr, mpi_type, pe, target_disp, ictx->win));
''', '''    OSHMPI_CALLMPI(MPI_Fetch_and_op
                   (NULL, result_addr, mpi_type, pe, target_disp, MPI_NO_OP, ictx->win));
    ctx_local_complete_impl(pe, ictx);
    {
        int typesz = 0;
        MPI_Type_size(mpi_type, &typesz);
        if (!memcmp(result_addr, compare_addr, typesz))
            OSHMPI_CALLMPI(MPI_Accumulate
                           (origin_addr, 1, mpi_type, pe, target_disp, 1, mpi_type, MPI_REPLACE,
                            ictx->win));
    }
''')],
  src='''
static long x;
int main(void) {
    shmem_init();
    int me = shmem_my_pe(), n = shmem_n_pes();
    long K = 3000;
    shmem_barrier_all();
    for (int i = 0; i < K; i++) {
        long o = shmem_long_atomic_fetch(&x, 0), v;
        while ((v = shmem_long_atomic_compare_swap(&x, o, o + 1, 0)) != o) o = v;
    }
    shmem_barrier_all();
    if (me == 0) CHECK(shmem_long_atomic_fetch(&x, 0) == K * n);
    shmem_barrier_all();
    shmem_finalize();
    return 0;
}''', timeout=120, needs='direct atomics; two PEs compare-and-swap one variable, the second between the read and the write of the first',
  breaks='compare_swap reads and writes in two separate steps, so two PEs can both succeed')

S(id='wait-ge-signed', prop='P09', n=2, edits=_M['wait-gt'],
  src='''
static unsigned long x;
int main(void) {
    shmem_init();
    int me = shmem_my_pe();
    shmem_barrier_all();
    shmem_ulong_atomic_set(&x, 1UL << 63, 1 - me);
    shmem_barrier_all();
    CHECK(shmem_ulong_test(&x, SHMEM_CMP_GE, 1));
    shmem_ulong_wait_until(&x, SHMEM_CMP_GE, 7);
    shmem_barrier_all();
    shmem_finalize();
    return 0;
}''', timeout=20, needs='unsigned values with the top bit set and SHMEM_CMP_GE', breaks='the comparison is made on signed values')

S(id='team-sync-pair', prop='P11', n=3, edits=_M['sync-flag-skip'],
  src='''
static int x;
int main(void) {
    shmem_init();
    int me = shmem_my_pe();
    shmem_team_t t;
    shmem_team_split_strided(SHMEM_TEAM_WORLD, 0, 2, 2, NULL, 0, &t);
    shmem_barrier_all();
    if (me == 0) { usleep(300000); shmem_int_p(&x, 1, 1); shmem_quiet(); }
    if (t != SHMEM_TEAM_INVALID) { shmem_team_sync(t); CHECK(shmem_int_g(&x, 1) == 1); shmem_team_destroy(t); }
    shmem_barrier_all();
    shmem_finalize();
    return 0;
}''', needs='a team of two PEs', breaks='team_sync of a two-PE team does not wait')

S(id='bcast-team-root', prop='P14', n=3, edits=[('src/internal/coll_impl.h', '''    OSHMPI_am_progress_mpi_bcast(PE_root == team->my_pe ?''', '''    OSHMPI_am_progress_mpi_bcast(PE_root == OSHMPI_global.team_world_my_pe ?''')],
  src='''
static int src, dst;
int main(void) {
    shmem_init();
    int me = shmem_my_pe();
    shmem_team_t t;
    shmem_team_split_strided(SHMEM_TEAM_WORLD, 0, 2, 2, NULL, 0, &t);
    src = 10 + me; dst = -1;
    shmem_barrier_all();
    if (me % 2 == 0) {
        shmem_int_broadcast(t, &dst, &src, 1, 1);
        CHECK(dst == 12);
    }
    shmem_barrier_all();
    if (me % 2 == 0) shmem_team_destroy(t);
    shmem_finalize();
    return 0;
}''', timeout=20, needs='a team in which the root has another number than in the world', breaks='the root broadcasts what its destination buffer held before')

S(id='alltoalls-extent', prop='P16', n=3, edits=_M['a2as-extent'], first=True,
  src='''
static int src[64], dst[64];
int main(void) {
    shmem_init();
    int me = shmem_my_pe(), n = 3, ds = 3, ss = 2, m = 2;
    for (int i = 0; i < 64; i++) { src[i] = 100 * me + i; dst[i] = -1; }
    shmem_barrier_all();
    CHECK(shmem_int_alltoalls(SHMEM_TEAM_WORLD, dst, src, ds, ss, m) == 0);
    int e[64];
    for (int i = 0; i < 64; i++) e[i] = -1;
    for (int p = 0; p < n; p++) for (int k = 0; k < m; k++) e[(p * m + k) * ds] = 100 * p + (me * m + k) * ss;
    for (int i = 0; i < 64; i++) CHECK(dst[i] == e[i]);
    shmem_barrier_all();
    shmem_finalize();
    return 0;
}''', needs='team alltoalls with different strides on the two sides', breaks='the received blocks are spaced by the source stride')

S(id='calloc-partial', prop='P20', n=2, edits=_M['calloc-zero'],
  src='''
int main(void) {
    shmem_init();
    char *p = shmem_malloc(4096);
    memset(p, 7, 4096);
    shmem_free(p);
    p = shmem_calloc(64, 32);
    for (int i = 0; i < 64 * 32; i++) CHECK(p[i] == 0);
    shmem_free(p);
    shmem_finalize();
    return 0;
}''', needs='calloc that reuses a released dirty block', breaks='only the first element is cleared')

S(id='lock-queue-5', prop='P12', n=5, edits=_M['lock-mask-2'],
  src='''
static long lock; static long cnt;
int main(void) {
    shmem_init();
    int me = shmem_my_pe(), n = shmem_n_pes();
    shmem_barrier_all();
    for (int i = 0; i < 200; i++) {
        shmem_set_lock(&lock);
        long v = shmem_long_g(&cnt, 0);
        shmem_long_p(&cnt, v + 1, 0);
        shmem_clear_lock(&lock);
    }
    shmem_barrier_all();
    if (me == 0) CHECK(cnt == 200 * n);
    shmem_barrier_all();
    shmem_finalize();
    return 0;
}''', timeout=60, needs='at least four PEs, a successor with a PE number of at least 3', breaks='the successor number is truncated: the lock is handed to the wrong PE or to nobody')

S(id='space-handle-pair', prop='P24', n=2, edits=_M['am-handle-any'],
  src='''
int main(void) {
    shmem_init();
    int me = shmem_my_pe();
    shmemx_space_t s[3]; int *x[3];
    for (int i = 0; i < 3; i++) {
        shmemx_space_config_t cf = { .sheap_size = 4096, .num_contexts = 1, .memkind = SHMEMX_MEM_HOST };
        shmemx_space_create(cf, &s[i]); shmemx_space_attach(s[i]);
        x[i] = shmemx_space_malloc(s[i], 64);
        *x[i] = 0;
    }
    shmem_barrier_all();
    for (int i = 0; i < 3; i++) shmem_int_atomic_add(x[i], 5 + i, 1 - me);
    shmem_barrier_all();
    for (int i = 0; i < 3; i++) CHECK(*x[i] == 5 + i);
    shmem_barrier_all();
    for (int i = 0; i < 3; i++) { shmem_free(x[i]); shmemx_space_detach(s[i]); shmemx_space_destroy(s[i]); }
    shmem_finalize();
    return 0;
}''', timeout=20, needs='several attached spaces with neighbouring identifiers', breaks='an active message for one space is applied to another')

S(id='dtype-cache-bounded', prop='P30', n=2, edits=[('src/internal/strided_impl.h', '''    LL_PREPEND(OSHMPI_strided_dtype_cache.head, dobj);
    OSHMPI_strided_dtype_cache.nobjs++;''', '''    if (OSHMPI_strided_dtype_cache.nobjs < 256) {
        LL_PREPEND(OSHMPI_strided_dtype_cache.head, dobj);
        OSHMPI_strided_dtype_cache.nobjs++;
    } else {
        /* full: take over the newest entry */
        OSHMPIU_free(dobj);
        dobj = OSHMPI_strided_dtype_cache.head;
        dobj->nelems = nelems;
        dobj->stride = stride;
        dobj->dtype = mpi_type;
        dobj->ext_nelems = required_ext_nelems;
    }''')],
  src='''
static int a[4096], b[4096];
int main(void) {
    shmem_init();
    int me = shmem_my_pe();
    for (int i = 0; i < 4096; i++) a[i] = 10000 * me + i;
    shmem_barrier_all();
    for (int s = 2; s < 322; s++) {
        for (int i = 0; i < 4096; i++) b[i] = -1; 
        shmem_barrier_all();
        for (int k = 0; k < 2; k++) shmem_int_iput(b, a, s, 1, 3, 1 - me);
        shmem_barrier_all();
        for (int i = 0; i < 2 * s + 8; i++) CHECK(b[i] == (i % s == 0 && i / s < 3 ? 10000 * (1 - me) + i / s : -1));
        shmem_barrier_all();
    }
    shmem_finalize();
    return 0;
}''', needs='more than 256 distinct strided shapes', breaks='a full cache relabels an entry without rebuilding its datatype')

S(id='comm-cache-bounded', prop='P18', n=5, edits=[('src/internal/coll_activeset_impl.h', '''    LL_PREPEND(OSHMPI_coll_comm_cache.head, cobj);
    OSHMPI_coll_comm_cache.nobjs++;''', '''    if (OSHMPI_coll_comm_cache.nobjs < 4) {
        LL_PREPEND(OSHMPI_coll_comm_cache.head, cobj);
        OSHMPI_coll_comm_cache.nobjs++;
    } else {
        /* full: take over the newest entry */
        OSHMPIU_free(cobj);
        cobj = OSHMPI_coll_comm_cache.head;
        cobj->pe_start = PE_start;
        cobj->pe_stride = logPE_stride;
        cobj->pe_size = PE_size;
    }''')],
  src='''
static long ps[SHMEM_BARRIER_SYNC_SIZE + SHMEM_REDUCE_SYNC_SIZE];
static int src, dst, wrk[SHMEM_REDUCE_MIN_WRKDATA_SIZE + 2];
int main(void) {
    shmem_init();
    int me = shmem_my_pe(), n = shmem_n_pes();
    src = 1 << me;
    for (int i = 0; i < SHMEM_REDUCE_SYNC_SIZE; i++) ps[i] = SHMEM_SYNC_VALUE;
    for (int round = 0; round < 2; round++) for (int sz = 4; sz >= 2; sz--) for (int st = 0; st + sz <= n; st++) {
        shmem_barrier_all();
        if (me < st || me >= st + sz) continue;
        shmem_int_sum_to_all(&dst, &src, 1, st, 0, sz, wrk, ps);
        CHECK(dst == ((1 << sz) - 1) << st);
    }
    shmem_barrier_all();
    shmem_finalize();
    return 0;
}''', timeout=20, needs='a PE takes part in more than four distinct active sets', breaks='a full cache relabels the communicator of another set')
