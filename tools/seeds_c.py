import os as _os
SEEDS = []
def S(**k): SEEDS.append(k)
_M = {}
def m(name, props, file, *edits): _M[name] = [(file, o, n) for o, n in edits]
for _f in ('mutants_a.py', 'mutants_b.py', 'mutants_c.py', 'mutants_d.py'):
    exec(open('/verif/tools/' + _f).read())

S(id='collect-displacement', prop='P15', n=3, edits=_M['collect-disp-short'], src='''
#define N 20000
static int src[N], dst[3 * N];
int main(void) {
    shmem_init();
    int me = shmem_my_pe(), mine = N - me;
    for (int i = 0; i < N; i++) src[i] = me * 100000 + i;
    for (int i = 0; i < 3 * N; i++) dst[i] = -1;
    shmem_barrier_all();
    CHECK(shmem_int_collect(SHMEM_TEAM_WORLD, dst, src, mine) == 0);
    shmem_barrier_all();
    int o = 0;
    for (int p = 0; p < 3; p++)
        for (int i = 0; i < N - p; i++, o++) CHECK(dst[o] == p * 100000 + i);
    CHECK(dst[o] == -1);
    shmem_barrier_all();
    shmem_finalize();
    return 0;
}''', needs='a team collect whose contributions differ and whose first contributions exceed 32767 elements',
  breaks='the contributions of the later PEs land at wrong offsets')

S(id='reduce-adjacent-buffers', prop='P17', n=3, edits=_M['reduce-inplace-team'], src='''
static signed char b[64];
int main(void) {
    shmem_init();
    int me = shmem_my_pe();
    for (int n = 1; n <= 16; n++) {
        memset(b, 100, sizeof b);
        for (int i = 0; i < n; i++) b[n + i] = 10 * me + i;       /* source directly behind dest */
        shmem_barrier_all();
        CHECK(shmem_schar_max_reduce(SHMEM_TEAM_WORLD, b, b + n, n) == 0);
        shmem_barrier_all();
        for (int i = 0; i < n; i++) CHECK(b[i] == 20 + i && b[n + i] == 10 * me + i);
        for (int i = 2 * n; i < 64; i++) CHECK(b[i] == 100);
        shmem_barrier_all();
    }
    shmem_finalize();
    return 0;
}''', needs='a team reduction over bytes whose source array directly follows the destination array',
  breaks='the reduction takes the destination as its input and ignores the source')

S(id='alltoalls-stride-octal', prop='P16', n=2, edits=_M['a2as-dst-eq-as'], src='''
static long psync[SHMEM_ALLTOALLS_SYNC_SIZE];
static int src[64], dst[64];
int main(void) {
    shmem_init();
    int me = shmem_my_pe();
    for (int i = 0; i < SHMEM_ALLTOALLS_SYNC_SIZE; i++) psync[i] = SHMEM_SYNC_VALUE;
    for (int i = 0; i < 64; i++) { src[i] = me * 1000 + i; dst[i] = -1; }
    shmem_barrier_all();
    shmem_alltoalls32(dst, src, 1, 9, 3, 0, 0, 2, psync);
    shmem_barrier_all();
    /* block p of the destination: 3 consecutive elements, from elements 9 apart on PE p */
    for (int p = 0; p < 2; p++)
        for (int i = 0; i < 3; i++) CHECK(dst[p * 3 + i] == p * 1000 + me * 27 + i * 9);
    for (int i = 6; i < 64; i++) CHECK(dst[i] == -1);
    shmem_barrier_all();
    shmem_finalize();
    return 0;
}''', needs='an active-set alltoalls whose two strides differ by a multiple of 8',
  breaks='the destination stride is taken for the source side')

S(id='calloc-product-wraps', prop='P20', n=2, edits=_M['calloc-overflow'], src='''
int main(void) {
    shmem_init();
    char *a = shmem_calloc(SIZE_MAX / 16 + 2, 16);
    CHECK(a == NULL);
    char *b = shmem_calloc(10, 16);
    CHECK(b != NULL);
    for (int i = 0; i < 160; i++) CHECK(b[i] == 0);
    shmem_free(b);
    shmem_finalize();
    return 0;
}''', needs='shmem_calloc of a count and size whose product exceeds SIZE_MAX',
  breaks='a far too small block is returned instead of NULL')

S(id='team-split-key-mask', prop='P19', n=6, edits=_M['team-key'], src='''
int main(void) {
    shmem_init();
    int me = shmem_my_pe(), n = shmem_n_pes();
    shmem_team_t t = SHMEM_TEAM_INVALID;
    CHECK(shmem_team_split_strided(SHMEM_TEAM_WORLD, 1, 1, n - 1, NULL, 0, &t) == 0);
    if (me >= 1) {
        CHECK(t != SHMEM_TEAM_INVALID);
        CHECK(shmem_team_n_pes(t) == n - 1);
        CHECK(shmem_team_my_pe(t) == me - 1);
        for (int i = 0; i < n - 1; i++) CHECK(shmem_team_translate_pe(t, i, SHMEM_TEAM_WORLD) == i + 1);
        shmem_team_destroy(t);
    }
    shmem_barrier_all();
    shmem_finalize();
    return 0;
}''', needs='a team split whose members include PE numbers above 3 along with smaller ones',
  breaks='the PEs of the new team are not numbered in the order of the parent team')

S(id='swap-in-two-steps', prop='P06', n=4, env={'OSHMPI_AMO_DBG_MODE': 'direct'}, edits=_M['amo-swap-getset'], src='''
static long x, sum;
int main(void) {
    shmem_init();
    int me = shmem_my_pe(), n = shmem_n_pes();
    long have = me + 1;                     /* unique tokens: swaps only move them around */
    x = 0; sum = 0;
    shmem_barrier_all();
    for (int i = 0; i < 20000; i++) have = shmem_long_atomic_swap(&x, have, 0);
    shmem_barrier_all();
    shmem_long_atomic_add(&sum, 1L << (8 * have), 0);
    shmem_barrier_all();
    if (me == 0) {
        long all = 0;
        sum += 1L << (8 * x);
        for (int i = 0; i <= n; i++) all += 1L << (8 * i);
        CHECK(sum == all);
    }
    shmem_barrier_all();
    shmem_finalize();
    return 0;
}''', needs='two PEs swapping the same variable at the same time, with direct atomics',
  breaks='a swap reads and writes in two separate steps, so that two PEs can obtain the same old value')

S(id='space-handle-cap', prop='P23', n=2, edits=_M['space-attach-idx-first'], src='''
#define K 6
int main(void) {
    shmem_init();
    int me = shmem_my_pe();
    shmemx_space_t s[K]; int *x[K];
    for (int i = 0; i < K; i++) {
        shmemx_space_config_t cf = { .sheap_size = 8192, .num_contexts = 0, .memkind = SHMEMX_MEM_HOST };
        shmemx_space_create(cf, &s[i]);
        shmemx_space_attach(s[i]);
        x[i] = shmemx_space_malloc(s[i], 64);
        *x[i] = -1;
    }
    shmem_barrier_all();
    if (me == 0) for (int i = 0; i < K; i++) shmem_int_atomic_set(x[i], 10 + i, 1);
    shmem_barrier_all();
    if (me == 1) for (int i = 0; i < K; i++) CHECK(*x[i] == 10 + i);
    shmem_barrier_all();
    for (int i = 0; i < K; i++) { shmem_free(x[i]); shmemx_space_detach(s[i]); shmemx_space_destroy(s[i]); }
    shmem_finalize();
    return 0;
}''', needs='five or more attached spaces, accessed with atomics', breaks='atomics to the later spaces reach another space')

S(id='flush-first-three', prop='P03', n=6, edits=_M['am-flush-ge4'], src='''
static int x; static int flag;
int main(void) {
    shmem_init();
    int me = shmem_my_pe(), n = shmem_n_pes();
    x = 0; flag = 0;
    shmem_barrier_all();
    if (me == 0) {
        for (int p = 1; p < n; p++) shmem_int_atomic_add(&x, 7, p);
        shmem_quiet();
        shmem_int_p(&flag, 1, n - 1);     /* a direct put, needs no help of the target */
        shmem_quiet();
    } else {
        usleep(me == n - 1 ? 1500000 : 200000);
        if (*(volatile int *) &flag) CHECK(*(volatile int *) &x == 7);
    }
    shmem_barrier_all();
    CHECK(me == 0 || x == 7);
    shmem_barrier_all();
    shmem_finalize();
    return 0;
}''', needs='a quiet after atomics to more than three PEs, one of which is late to make progress',
  breaks='quiet waits for at most three targets and returns before the atomics at the others took effect')

S(id='space-destroy-second', prop='P23', n=2, edits=_M['space-destroy-first'], src='''
#define K 3
int main(void) {
    shmem_init();
    int me = shmem_my_pe();
    shmemx_space_t s[K]; int *x[K];
    for (int i = 0; i < K; i++) {
        shmemx_space_config_t cf = { .sheap_size = 8192, .num_contexts = 0, .memkind = SHMEMX_MEM_HOST };
        shmemx_space_create(cf, &s[i]);
        shmemx_space_attach(s[i]);
        x[i] = shmemx_space_malloc(s[i], 64);
        *x[i] = -1;
    }
    shmem_barrier_all();
    shmem_free(x[1]); shmemx_space_detach(s[1]); shmemx_space_destroy(s[1]);
    shmem_barrier_all();
    if (me == 0) { shmem_int_p(x[2], 5, 1); shmem_int_p(x[0], 4, 1); shmem_quiet(); }
    shmem_barrier_all();
    if (me == 1) CHECK(*x[2] == 5 && *x[0] == 4);
    shmem_barrier_all();
    for (int i = 0; i < K; i += 2) { shmem_free(x[i]); shmemx_space_detach(s[i]); shmemx_space_destroy(s[i]); }
    shmem_finalize();
    return 0;
}''', needs='three spaces, the second of which is destroyed before the third is used',
  breaks='spaces created after the destroyed one are no longer found')

S(id='realloc-null-early', prop='P21', n=2, edits=_M['realloc-null-nobarrier'], src='''
static int flag;
int main(void) {
    shmem_init();
    int me = shmem_my_pe();
    flag = 0;
    shmem_barrier_all();
    if (me == 1) {
        usleep(700000);
        CHECK(*(volatile int *) &flag == 0);      /* PE 0 cannot have passed the allocation yet */
    }
    int *p = shmem_realloc(NULL, 64);
    if (me == 0) { shmem_int_p(&flag, 1, 1); shmem_quiet(); }
    shmem_barrier_all();
    CHECK(me == 0 || flag == 1);
    shmem_free(p);
    shmem_finalize();
    return 0;
}''', needs='shmem_realloc of a null pointer entered late by one PE',
  breaks='the allocation returns before the other PEs have allocated')
