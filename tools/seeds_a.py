SEEDS = []
def S(**k): SEEDS.append(k)

S(id='lock-stale-successor', prop='P12', n=3,
  edits=[('src/internal/lock_impl.h', '''        /* Reset my local bits. No one accesses to my next bits now. */
        lock->next = 0;
        OSHMPI_CALLMPI(MPI_Win_sync(ictx->win));

        /* Set next PE's signal bit */''', '''        /* My local bits are reset at next set_lock call. */

        /* Set next PE's signal bit */''')],
  src='''
static long lock; static int step;
static void wait(int v) { shmem_int_wait_until(&step, SHMEM_CMP_GE, v); }
static void say(int v) { for (int p = 0; p < 3; p++) { shmem_int_p(&step, v, p); } shmem_quiet(); }
int main(void) {
    shmem_init();
    int me = shmem_my_pe();
    shmem_barrier_all();
    if (me == 2) {
        shmem_set_lock(&lock); say(1);
        usleep(300000);            /* PE1 queues behind me */
        shmem_clear_lock(&lock);
        wait(2);
        while (shmem_test_lock(&lock)) ;
        say(3);
        usleep(300000);            /* PE0 queues behind me */
        shmem_clear_lock(&lock);
    } else if (me == 1) {
        wait(1); shmem_set_lock(&lock); shmem_clear_lock(&lock); say(2);
    } else {
        wait(3); shmem_set_lock(&lock); shmem_clear_lock(&lock);
    }
    shmem_barrier_all();
    shmem_finalize();
    return 0;
}''', timeout=20,
  needs='three PEs: X hands the lock over to Y, later X acquires with shmem_test_lock and Z queues behind X',
  breaks='clear_lock leaves its old successor in the queue word: after a test_lock acquisition the lock is handed to the wrong PE and the real waiter waits forever')

S(id='comm-cache-size', prop='P18', n=4,
  edits=[('src/internal/coll_activeset_impl.h', "&& cobj->pe_size == PE_size) {", "&& cobj->pe_size >= PE_size) {")],
  src='''
static long ps[SHMEM_BCAST_SYNC_SIZE]; static long pr[SHMEM_REDUCE_SYNC_SIZE];
static int src, dst, wrk[SHMEM_REDUCE_MIN_WRKDATA_SIZE + 2];
int main(void) {
    shmem_init();
    int me = shmem_my_pe();
    for (int i = 0; i < SHMEM_REDUCE_SYNC_SIZE; i++) pr[i] = SHMEM_SYNC_VALUE;
    for (int i = 0; i < SHMEM_BCAST_SYNC_SIZE; i++) ps[i] = SHMEM_SYNC_VALUE;
    src = 1 << me;
    shmem_barrier_all();
    if (me < 3) { shmem_int_sum_to_all(&dst, &src, 1, 0, 0, 3, wrk, pr); CHECK(dst == 7); }
    shmem_barrier_all();
    if (me < 2) { shmem_int_sum_to_all(&dst, &src, 1, 0, 0, 2, wrk, pr); CHECK(dst == 3); }
    shmem_barrier_all();
    shmem_finalize();
    return 0;
}''', timeout=20,
  needs='a collective over an active set after one over a larger set with the same start and stride',
  breaks='the cached communicator of the larger set is used for the smaller one')

S(id='dtype-cache-extent', prop='P30', n=2,
  edits=[('src/internal/strided_impl.h', '''        if (dobj->nelems == nelems && dobj->stride == stride
            && dobj->dtype == mpi_type && dobj->ext_nelems == required_ext_nelems) {''',
 '''        if (dobj->nelems == nelems && dobj->stride == stride && dobj->dtype == mpi_type) {''')],
  src='''
static int a[32], b[32];
int main(void) {
    shmem_init();
    int me = shmem_my_pe();
    for (int i = 0; i < 32; i++) { a[i] = 100 * me + i; b[i] = -1; }
    shmem_barrier_all();
    shmem_int_iput(b + 16, a, 3, 3, 2, 1 - me);
    shmem_barrier_all();
    CHECK(b[16] == 100 * (1 - me) && b[19] == 100 * (1 - me) + 3);
    shmem_int_alltoalls(SHMEM_TEAM_WORLD, b, a, 3, 3, 2);
    shmem_barrier_all();
    for (int p = 0; p < 2; p++) for (int k = 0; k < 2; k++)
        CHECK(b[p * 6 + k * 3] == 100 * p + me * 6 + k * 3);
    shmem_finalize();
    return 0;
}''',
  needs='a strided put followed by a strided all-to-all with the same element count, stride and type',
  breaks='the datatype cached for iput (no trailing gap) is reused by alltoalls, so blocks overlap')

S(id='flush-skips-self', prop='P03', n=2,
  edits=[('src/internal/am_impl.h', '''        pe = PE_start + i * pe_stride;
        if (OSHMPIU_ATOMIC_FLAG_LOAD(OSHMPI_am.outstanding_op_flags[pe]))
            noutstanding_pes++;''', '''        pe = PE_start + i * pe_stride;
        if (pe != OSHMPI_global.team_world_my_pe &&
            OSHMPIU_ATOMIC_FLAG_LOAD(OSHMPI_am.outstanding_op_flags[pe]))
            noutstanding_pes++;''')],
  src='''
static volatile int x;
int main(void) {
    shmem_init();
    int me = shmem_my_pe();
    shmem_barrier_all();
    shmem_int_atomic_add((int *) &x, 5, me);
    shmem_quiet();
    CHECK(x == 5);
    shmem_barrier_all();
    shmem_finalize();
    return 0;
}''',
  needs='the only outstanding atomics of the PE target the PE itself',
  breaks='shmem_quiet returns while an atomic update of the own memory is still queued')

S(id='collect-last-decides', prop='P15', n=4,
  edits=[('src/internal/coll_activeset_impl.h', "        same_nelems &= (nelems == rcounts[i]);", "        same_nelems = (nelems == rcounts[i]);")],
  src='''
static long ps[SHMEM_COLLECT_SYNC_SIZE];
static int src[4], dst[16];
int main(void) {
    shmem_init();
    int me = shmem_my_pe();
    for (int i = 0; i < SHMEM_COLLECT_SYNC_SIZE; i++) ps[i] = SHMEM_SYNC_VALUE;
    int n[4] = { 2, 1, 3, 2 }, tot = 0;
    for (int i = 0; i < 16; i++) dst[i] = -1;
    for (int i = 0; i < 4; i++) src[i] = me * 10 + i;
    shmem_barrier_all();
    shmem_collect32(dst, src, n[me], 0, 0, 4, ps);
    for (int p = 0; p < 4; p++) for (int i = 0; i < n[p]; i++) CHECK(dst[tot++] == p * 10 + i);
    shmem_barrier_all();
    shmem_finalize();
    return 0;
}''', timeout=20,
  needs='collect in which the caller contributes as many elements as the last PE of the set but not as the others',
  breaks='only the last PE decides whether all contributions are equal: the PEs run different collectives or lose elements')

S(id='test-no-progress', prop='P08', n=2,
  edits=[('src/internal/p2p_impl.h', '''    if (!test_ret) /* Skip progress if complete immediately */                                 \\
        OSHMPI_am_cb_progress();                                                               \\
''', '''    if (!test_ret) /* Skip progress if complete immediately */                                 \\
        OSHMPI_progress_poll_mpi();                                                            \\
''')],
  src='''
static int flag;
int main(void) {
    shmem_init();
    int me = shmem_my_pe();
    shmem_barrier_all();
    if (me == 0) {
        while (!shmem_int_test(&flag, SHMEM_CMP_EQ, 1)) usleep(100);
    } else
        shmem_int_atomic_set(&flag, 1, 0);
    shmem_barrier_all();
    shmem_finalize();
    return 0;
}''', timeout=20,
  needs='a PE polls with shmem_test for a flag that another PE sets by an atomic',
  breaks='shmem_test no longer serves active messages: the polling loop never ends')

S(id='amo-size-t-width', prop='P07', n=2,
  edits=[('src/internal/amo_am_impl.c', "           OSHMPI_OP_INT_MACRO(size_t); break;                  \\", "           OSHMPI_OP_INT_MACRO(unsigned int); break;            \\")],
  src='''
static size_t x;
int main(void) {
    shmem_init();
    int me = shmem_my_pe();
    x = 0xfffffff0u;
    shmem_barrier_all();
    if (me == 0) {
        size_t o = shmem_size_atomic_fetch_add(&x, 0x20, 1);
        CHECK(o == 0xfffffff0u);
        CHECK(shmem_size_atomic_fetch(&x, 1) == 0x100000010ull);
    }
    shmem_barrier_all();
    shmem_finalize();
    return 0;
}''',
  needs='a size_t atomic whose value does not fit 32 bits',
  breaks='size_t atomics only update the low 32 bits')

S(id='pool-fragment', prop='P22', n=2,
  edits=[('src/internal/util/mem_pool.c', '''            navail = 0;
            off += nused;
            continue;''', '''            off += nused;
            continue;''')],
  src='''
int main(void) {
    shmem_init();
    shmemx_space_t sp; shmemx_space_config_t c;
    memset(&c, 0, sizeof c);
    size_t pg = sysconf(_SC_PAGESIZE);
    c.sheap_size = 4 * pg; c.num_contexts = 0; c.hints = 0; c.memkind = SHMEMX_MEM_HOST;
    shmemx_space_create(c, &sp);
    shmemx_space_attach(sp);
    char *p[4];
    for (int i = 0; i < 3; i++) p[i] = shmemx_space_malloc(sp, pg);
    shmem_free(p[0]);
    char *q = shmemx_space_malloc(sp, 2 * pg);      /* one page at each end: no room */
    CHECK(q == NULL);
    shmem_free(p[1]); shmem_free(p[2]);
    shmemx_space_detach(sp);
    shmemx_space_destroy(sp);
    shmem_finalize();
    return 0;
}''',
  needs='a fragmented pool: free pages that are separated by a used block and together make up the requested size',
  breaks='non-contiguous free pages are counted together: the returned block overlaps one in use')

S(id='team-split-world-rank', prop='P19', n=4,
  edits=[('src/shmem/team.c', '''        && ((_parent_team->my_pe - start) % stride == 0);''', '''        && ((OSHMPI_global.team_world_my_pe - start) % stride == 0);''')],
  src='''
int main(void) {
    shmem_init();
    int me = shmem_my_pe();
    shmem_team_t t1 = SHMEM_TEAM_INVALID, t2 = SHMEM_TEAM_INVALID;
    shmem_team_split_strided(SHMEM_TEAM_WORLD, 1, 1, 3, NULL, 0, &t1);      /* 1 2 3 */
    if (t1 != SHMEM_TEAM_INVALID) {
        shmem_team_split_strided(t1, 0, 2, 2, NULL, 0, &t2);                /* 1 3 */
        CHECK((t2 != SHMEM_TEAM_INVALID) == (me == 1 || me == 3));
        if (t2 != SHMEM_TEAM_INVALID) CHECK(shmem_team_n_pes(t2) == 2 && shmem_team_my_pe(t2) == (me - 1) / 2);
    }
    shmem_barrier_all();
    shmem_finalize();
    return 0;
}''',
  needs='a strided split (stride > 1) of a team whose PE numbers differ from the world numbers',
  breaks='PEs are selected by their world number: the wrong PEs end up in the child team')

S(id='free-before-barrier', prop='P21', n=2,
  edits=[('src/internal/mem_impl.c', '''    OSHMPI_DBGMSG("ptr %p\\n", ptr);
    OSHMPI_barrier_all();

    /* Check default symm heap */''', '''    OSHMPI_DBGMSG("ptr %p\\n", ptr);

    /* Check default symm heap */'''),
   ('src/internal/mem_impl.c', '''                OSHMPI_space_free(space, ptr);
                break;
            }
        }
        OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
    }
}''', '''                OSHMPI_space_free(space, ptr);
                break;
            }
        }
        OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
    }
    OSHMPI_barrier_all();
}''')],
  src='''
int main(void) {
    shmem_init();
    int me = shmem_my_pe();
    char *g = shmem_malloc(64), *p = shmem_malloc(64), *h = shmem_malloc(64);
    char z[64]; memset(z, 0x5a, sizeof z);
    shmem_barrier_all();
    if (me == 1) { usleep(300000); shmem_putmem(p, z, 64, 0); }     /* still allocated here */
    shmem_free(p);
    for (int i = 0; i < 4; i++) { char *q = shmem_malloc(40 + 8 * i); CHECK(q != NULL); memset(q, 1, 40); }
    shmem_free(g); shmem_free(h);
    shmem_barrier_all();
    shmem_finalize();
    return 0;
}''', timeout=20,
  needs='a PE frees a block while another PE, not yet in shmem_free, still puts to it',
  breaks='the block is returned to the allocator before all PEs have arrived: a legal late put overwrites allocator data')

S(id='barrier-flush-after', prop='P10', n=3,
  edits=[('src/internal/coll_impl.h', '''    /* Ensure AM completion (e.g., AM AMOs) */
    OSHMPI_am_flush_all(SHMEM_CTX_DEFAULT);

    /* Ensure completion of memory store */
#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_ictx.win));
#else
    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_heap_ictx.win));
    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_data_ictx.win));
#endif
    OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);
}''', '''    /* Ensure completion of memory store */
#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_ictx.win));
#else
    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_heap_ictx.win));
    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_data_ictx.win));
#endif
    OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);

    /* Ensure AM completion (e.g., AM AMOs) */
    OSHMPI_am_flush_all(SHMEM_CTX_DEFAULT);
}''')],
  src='''
static volatile int x, y[3];
int main(void) {
    shmem_init();
    int me = shmem_my_pe();
    shmem_barrier_all();
    for (int r = 1; r <= 300; r++) {
        for (int k = 0; k < 8; k++) for (int p = 0; p < 3; p++) shmem_int_atomic_inc((int *) &x, p);
        shmem_barrier_all();
        CHECK(x == 24 * r);
        shmem_sync_all();
    }
    shmem_barrier_all();
    shmem_finalize();
    return 0;
}''',
  needs='an atomic is still on its way when all PEs have entered the barrier, and the target reads right after the barrier',
  breaks='updates issued before shmem_barrier_all are not visible after it')

S(id='setlock-no-progress', prop='P08', n=2,
  edits=[('src/internal/lock_impl.h', '''            if (SIGNAL(signal))
                break;
            OSHMPI_am_cb_progress();
''', '''            if (SIGNAL(signal))
                break;
''')],
  src='''
static long lock; static int cnt;
int main(void) {
    shmem_init();
    int me = shmem_my_pe();
    shmem_barrier_all();
    if (me == 0) {
        shmem_set_lock(&lock);
        shmem_sync_all();
        usleep(200000);
        CHECK(shmem_int_atomic_fetch_inc(&cnt, 1) == 0);
        shmem_clear_lock(&lock);
    } else {
        shmem_sync_all();
        shmem_set_lock(&lock);
        shmem_clear_lock(&lock);
    }
    shmem_barrier_all();
    shmem_finalize();
    return 0;
}''', timeout=20,
  needs='the lock holder performs an atomic on a PE that is waiting for the lock',
  breaks='the waiting PE does not serve active messages: holder and waiter wait for each other')

S(id='team-destroy-single', prop='P27', n=2,
  edits=[('src/internal/team_impl.c', '''    OSHMPI_CALLMPI(MPI_Comm_free(&((*team)->comm)));
''', '''    if ((*team)->n_pes > 1)     /* nobody else holds a single-PE communicator */
        OSHMPI_CALLMPI(MPI_Comm_free(&((*team)->comm)));
''')],
  src='''
int main(void) {
    shmem_init();
    int me = shmem_my_pe();
    for (int i = 0; i < 70000; i++) {
        shmem_team_t t = SHMEM_TEAM_INVALID;
        shmem_team_split_strided(SHMEM_TEAM_WORLD, 0, 1, 1, NULL, 0, &t);
        CHECK((t != SHMEM_TEAM_INVALID) == (me == 0));
        shmem_team_destroy(t);
    }
    shmem_barrier_all();
    shmem_finalize();
    return 0;
}''', timeout=120,
  needs='many create/destroy cycles of teams that have a single PE',
  breaks='the communicator of a destroyed single-PE team is never released: a long run exhausts the communicator ids')

S(id='fence-no-am', prop='P04', n=2,
  edits=[('src/internal/order_impl.h', '''    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);

    /* Ensure AM ordered delivery (e.g., AM AMOs) */
    OSHMPI_am_flush_all(ctx);
}''', '''    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);

    /* AMs to the same PE are delivered in order */
}''')],
  src='''
static volatile int x; static int flag;
int main(void) {
    shmem_init();
    int me = shmem_my_pe();
    shmem_barrier_all();
    if (me == 0) {
        shmem_int_atomic_add((int *) &x, 1, 1);
        shmem_fence();
        shmem_int_p(&flag, 1, 1);
        shmem_quiet();
    } else {
        usleep(300000);
        shmem_int_wait_until(&flag, SHMEM_CMP_EQ, 1);
        CHECK(x == 1);
    }
    shmem_barrier_all();
    shmem_finalize();
    return 0;
}''',
  needs='an atomic, a fence and a put to the same PE, and a target that looks at the flag before it serves messages',
  breaks='the fence does not order an atomic (message) before a later put (direct write)')

S(id='reduce-single-pe', prop='P17', n=3,
  edits=[('src/internal/coll_activeset_impl.h', '''    /* source and dest may be the same array, but may not be overlapping. */
    OSHMPI_am_progress_mpi_allreduce((source == dest) ? MPI_IN_PLACE : source,
                                     dest, count, mpi_type, op, comm);''', '''    /* source and dest may be the same array, but may not be overlapping.
     * Nothing to combine if the set has a single PE. */
    if (PE_size > 1)
        OSHMPI_am_progress_mpi_allreduce((source == dest) ? MPI_IN_PLACE : source,
                                         dest, count, mpi_type, op, comm);''')],
  src='''
static int x, y, wrk[SHMEM_REDUCE_MIN_WRKDATA_SIZE + 2]; static long pr[SHMEM_REDUCE_SYNC_SIZE];
int main(void) {
    shmem_init();
    int me = shmem_my_pe();
    x = me + 3; y = -1;
    for (int i = 0; i < SHMEM_REDUCE_SYNC_SIZE; i++) pr[i] = SHMEM_SYNC_VALUE;
    shmem_barrier_all();
    if (me == 1) { shmem_int_max_to_all(&y, &x, 1, 1, 0, 1, wrk, pr); CHECK(y == 4); }
    shmem_barrier_all();
    shmem_finalize();
    return 0;
}''', timeout=20,
  needs='a reduction over an active set of a single PE with separate source and destination',
  breaks='the result is not written')

S(id='env-lowercase-m', prop='P26', n=2,
  edits=[('src/include/oshmpi_util.h', "    else if (*e == 'M' || *e == 'm')", "    else if (*e == 'M')")],
  src='''
int main(void) {
    shmem_init();
    CHECK(shmem_malloc(1200000) != NULL);
    shmem_finalize();
    return 0;
}''', env={'SHMEM_SYMMETRIC_SIZE': '1.5m'},
  needs='SHMEM_SYMMETRIC_SIZE given with a lower-case m',
  breaks='the unit is ignored: the symmetric heap has a few bytes')

S(id='space-search-first', prop='P23', n=2,
  edits=[('src/include/oshmpi_impl.h', '''                if (space->sobj_attr.handle == sobj_handle) {''',
          '''                if (OSHMPI_SOBJ_HANDLE_GET_KIND(space->sobj_attr.handle) ==
                    OSHMPI_SOBJ_HANDLE_GET_KIND(sobj_handle)) {''')],
  src='''
int main(void) {
    shmem_init();
    int me = shmem_my_pe();
    shmemx_space_t s[2]; shmemx_space_config_t c; volatile int *p[2];
    memset(&c, 0, sizeof c);
    c.sheap_size = 4096; c.memkind = SHMEMX_MEM_HOST;
    for (int i = 0; i < 2; i++) {
        shmemx_space_create(c, &s[i]); shmemx_space_attach(s[i]);
        p[i] = shmemx_space_malloc(s[i], sizeof(int)); *p[i] = 0;
    }
    shmem_barrier_all();
    shmem_int_atomic_add((int *) p[1], 7, 1 - me);
    shmem_barrier_all();
    CHECK(*p[1] == 7 && *p[0] == 0);
    for (int i = 0; i < 2; i++) { shmem_free((void *) p[i]); shmemx_space_detach(s[i]); shmemx_space_destroy(s[i]); }
    shmem_finalize();
    return 0;
}''',
  needs='an atomic on the second of two attached spaces',
  breaks='the target picks the first attached space of any handle: the update lands in another space')

S(id='ctx-flag-reuse', prop='P24', n=2,
  edits=[('src/internal/space_impl.c', '''        if (OSHMPIU_ATOMIC_FLAG_CAS(space->ctx_list[i].used_flag, 0, 1) == 0) {
            *ctx_ptr = &space->ctx_list[i];
            break;
        }
    }
    if (i >= space->config.num_contexts)        /* no available context */''', '''        *ctx_ptr = &space->ctx_list[i];
        if (OSHMPIU_ATOMIC_FLAG_CAS(space->ctx_list[i].used_flag, 0, 1) == 0)
            break;
    }
    if (i > space->config.num_contexts) /* no available context */''')],
  src='''
int main(void) {
    shmem_init();
    shmemx_space_t s; shmemx_space_config_t c; shmem_ctx_t x[3];
    memset(&c, 0, sizeof c);
    c.sheap_size = 4096; c.memkind = SHMEMX_MEM_HOST; c.num_contexts = 2;
    shmemx_space_create(c, &s); shmemx_space_attach(s);
    CHECK(shmemx_space_create_ctx(s, 0, &x[0]) == 0 && shmemx_space_create_ctx(s, 0, &x[1]) == 0);
    CHECK(shmemx_space_create_ctx(s, 0, &x[2]) != 0);
    shmem_ctx_destroy(x[0]); shmem_ctx_destroy(x[1]);
    shmem_barrier_all();
    shmemx_space_detach(s); shmemx_space_destroy(s);
    shmem_finalize();
    return 0;
}''',
  needs='more contexts requested from a space than it was configured with',
  breaks='an exhausted space hands out a context that is already in use')

S(id='addr-accessible-data', prop='P28', n=2,
  edits=[('src/shmem/setup.c', "    return (pe == OSHMPI_global.team_world_my_pe) ? (void *) dest : NULL;", "    return (pe >= 0 && pe < OSHMPI_global.team_world_n_pes) ? (void *) dest : NULL;")],
  src='''
static int x;
int main(void) {
    shmem_init();
    int me = shmem_my_pe();
    shmem_barrier_all();
    int *q = shmem_ptr(&x, 1 - me);
    if (q) *q = 10 + me;          /* a pointer that is returned refers to the memory of the other PE */
    shmem_barrier_all();
    CHECK(q == NULL || x == 10 + (1 - me));
    shmem_finalize();
    return 0;
}''',
  needs='shmem_ptr of a remote PE',
  breaks='shmem_ptr returns the local address as if it were the memory of another PE')
