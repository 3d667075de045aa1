/* P09 point-to-point wait and test */
#include "ops.h"
static const int cmps[] = { SHMEM_CMP_EQ, SHMEM_CMP_NE, SHMEM_CMP_GT, SHMEM_CMP_GE, SHMEM_CMP_LT, SHMEM_CMP_LE };
static const char *cn[] = { "EQ", "NE", "GT", "GE", "LT", "LE" };
typedef struct { const char *name; int size; int (*test)(int form, void *v, int c, int vi); int (*holds)(int vx, int c, int vi); void (*wait)(int form, void *v, int c, int vi); void (*set)(void *v, int i); int (*cur)(const void *v, int c, int vi);
    void (*send)(int how, void *d, int i, int pe); } pt_t;
#define NV 7
#define TYP(T, N) \
    static T vals_##N(int i) { T mx = (T) ((T) -1 > 0 ? (T) -1 : (T) (((uint64_t) 1 << (sizeof(T) * 8 - 1)) - 1)), mn = (T) ((T) -1 > 0 ? 0 : (T) ((uint64_t) 1 << (sizeof(T) * 8 - 1))); T h = (T) ((uint64_t) 1 << (sizeof(T) * 8 - 1)); \
        T t[NV] = { 0, 1, (T) -1, mx, mn, h, (T) (mx / 2 + 1) }; return t[i]; } \
    static int rel_##N(T a, int c, T b) { switch (c) { case 0: return a == b; case 1: return a != b; case 2: return a > b; case 3: return a >= b; case 4: return a < b; default: return a <= b; } } \
    static int holds_##N(int x, int c, int i) { return rel_##N(vals_##N(x), c, vals_##N(i)); } \
    static int cur_##N(const void *v, int c, int i) { return rel_##N(*(volatile const T *) v, c, vals_##N(i)); } \
    static void set_##N(void *v, int i) { *(T *) v = vals_##N(i); } \
    static int test_##N(int f, void *v, int c, int i) { return f ? shmem_test((T *) v, cmps[c], vals_##N(i)) : shmem_##N##_test((T *) v, cmps[c], vals_##N(i)); } \
    static void wait_##N(int f, void *v, int c, int i) { if (f == 2) W_##N(v, vals_##N(i)); else if (f) shmem_wait_until((T *) v, cmps[c], vals_##N(i)); else shmem_##N##_wait_until((T *) v, cmps[c], vals_##N(i)); } \
    static void send_##N(int how, void *d, int i, int pe) { T x = vals_##N(i); if (how == 1) shmem_putmem(d, &x, sizeof x, pe); else if (how == 2 && sizeof(T) == 8) shmem_uint64_atomic_set(d, (uint64_t) x, pe); else if (how == 2 && sizeof(T) == 4) shmem_uint32_atomic_set(d, (uint32_t) x, pe); else shmem_##N##_p(d, x, pe); }
#define OLDW(T, N) /* the older wait calls exist for these types */
static int w_has(const char *n) { return !strcmp(n, "short") || !strcmp(n, "int") || !strcmp(n, "long") || !strcmp(n, "longlong"); }
#define W_short(v, x) shmem_short_wait(v, x)
#define W_int(v, x) shmem_int_wait(v, x)
#define W_long(v, x) shmem_long_wait(v, x)
#define W_longlong(v, x) shmem_longlong_wait(v, x)
#define W_ushort(v, x) (void) 0
#define W_uint(v, x) (void) 0
#define W_ulong(v, x) (void) 0
#define W_ulonglong(v, x) (void) 0
#define W_int32(v, x) (void) 0
#define W_int64(v, x) (void) 0
#define W_uint32(v, x) (void) 0
#define W_uint64(v, x) (void) 0
#define W_size(v, x) (void) 0
#define W_ptrdiff(v, x) (void) 0
P2P_TYPES(TYP)
#define ENTRY(T, N) { #N, sizeof(T), test_##N, holds_##N, wait_##N, set_##N, cur_##N, send_##N },
static const pt_t pt[] = { P2P_TYPES(ENTRY) };
#define NPT NELEM(pt)
MC_SYMM static unsigned char pv[16] __attribute__((aligned(8))) = { 1 };
/* test for every type, comparison, pair of values */
MC_SCEN(p2p_test)
{
    shmem_init();
    if (shmem_my_pe() == 0) {
        int t = mc_choose(NPT), c = mc_choose(6), x = mc_choose(NV), i = mc_choose(NV), form = mc_choose(2);
        fill(pv, 16, 3);
        pt[t].set(pv, x);
        unsigned char s[16];
        memcpy(s, pv, 16);
        int want = pt[t].holds(x, c, i);
        int got = pt[t].test(form, pv, c, i);
        mc_assert(!!got == want, "%s_test %s: returned %d for values number %d and %d", pt[t].name, cn[c], got, x, i);
        if (want) pt[t].wait(form, pv, c, i); /* must return */
        if (c == 1 && want && w_has(pt[t].name)) pt[t].wait(2, pv, c, i);
        mc_assert(!memcmp(s, pv, 16), "%s test/wait changed the variable or its neighbours", pt[t].name);
    }
    shmem_barrier_all();
    shmem_finalize();
}
/* the waiting PE sees first a value that does not, then one that does satisfy the comparison */
MC_SCEN(p2p_wait)
{
    shmem_init();
    int me = shmem_my_pe();
    int t = mc_choose_all(NPT), c = mc_choose_all(6), i = mc_choose_all(NV), how = mc_choose_all(3), form = mc_choose_all(5);
    int bad = -1, bad2 = -1, good = -1;
    for (int x = 0; x < NV; x++) if (pt[t].holds(x, c, i)) { if (good < 0 || mc_arg("last", 0)) good = x; } else { bad2 = bad; bad = x; }
    if (form == 2 && (c != 1 || !w_has(pt[t].name))) good = -1;
    if (how == 2 && pt[t].size < 4) good = -1;
    void *v = pv;
    shmemx_space_t sp = 0;
    if (mc_arg("heap", 0) == 1) v = shmem_malloc(16);
    if (mc_arg("heap", 0) == 2) {
        shmemx_space_config_t cf = { .sheap_size = 1024, .num_contexts = 0, .memkind = SHMEMX_MEM_HOST };
        shmemx_space_create(cf, &sp);
        shmemx_space_attach(sp);
        v = shmemx_space_malloc(sp, 16);
    }
    memset(v, 0, 16);
    if (bad >= 0) pt[t].set(v, bad);
    shmem_barrier_all();
    if (good >= 0 && bad >= 0) {
        if (mc_arg("explore", 0)) mc_begin();
        if (me == 0) {
            if (form >= 3) while (!pt[t].test(form - 3, v, c, i)) mc_point(); /* polling */
            else pt[t].wait(form, v, c, i);
            mc_assert(pt[t].cur(v, c, i), "%s_wait_until %s returned although the comparison does not hold", pt[t].name, cn[c]);
            mc_assert(mc_ghost(0), "%s_wait_until %s returned before the variable was updated", pt[t].name, cn[c]);
        } else if (me == 1) {
            if (bad2 >= 0) { pt[t].send(how, v, bad2, 0); shmem_fence(); }
            mc_ghost_set(0, 1);
            pt[t].send(how, v, good, 0);
        }
        shmem_barrier_all();
        if (mc_arg("explore", 0)) mc_end();
        if (me == 0) mc_assert(pt[t].test(0, v, c, i), "%s_test %s is false although the comparison holds", pt[t].name, cn[c]);
    }
    if (sp) { shmem_free(v); shmemx_space_detach(sp); shmemx_space_destroy(sp); }
    shmem_finalize();
}
/* polling with test until true; data sent before the flag must not be missed (put; fence; flag) */
MC_SYMM static long pp_data, pp_flag[2];
MC_SCEN(p2p_poll)
{
    shmem_init();
    int me = shmem_my_pe(), how = mc_choose_all(6), upd = mc_choose_all(5);
    pp_data = pp_flag[0] = pp_flag[1] = 0;
    shmem_barrier_all();
    mc_begin();
    if (me == 0) {
        switch (how) {
        case 0: while (!shmem_long_test(&pp_flag[0], SHMEM_CMP_EQ, 2)) mc_point(); break;
        case 1: shmem_long_wait_until(&pp_flag[0], SHMEM_CMP_GE, 2); break;
        case 2: shmem_long_wait(&pp_flag[0], 0); if (upd == 4) shmem_long_wait(&pp_flag[0], 1); break;
        case 3: shmem_wait_until(&pp_flag[0], SHMEM_CMP_GT, 1); break;
        case 4: while (!shmem_long_test(&pp_flag[0], SHMEM_CMP_GE, 2)) mc_point(); break;
        case 5: while (!shmem_test(&pp_flag[0], SHMEM_CMP_NE, 0)) mc_point(); if (upd == 4) while (!shmem_test(&pp_flag[0], SHMEM_CMP_NE, 1)) mc_point(); break;
        }
        mc_assert(pp_flag[0] == 2, "the wait returned with value %ld", pp_flag[0]);
        mc_assert(mc_ghost(0) == 1, "the wait returned before the update was issued");
        mc_assert(pp_data == 7, "the flag arrived before data put ahead of the fence");
        shmem_long_p(&pp_flag[1], 1, 1); /* answer */
    } else if (me == 1) {
        shmem_long_p(&pp_data, 7, 0);
        shmem_fence();
        mc_ghost_set(0, 1);
        switch (upd) {
        case 0: shmem_long_p(&pp_flag[0], 2, 0); break;
        case 1: shmem_long_atomic_set(&pp_flag[0], 2, 0); break;
        case 2: shmem_long_atomic_add(&pp_flag[0], 2, 0); break;
        case 3: shmem_long_atomic_fetch_add(&pp_flag[0], 2, 0); break;
        case 4: shmem_long_atomic_inc(&pp_flag[0], 0); shmem_long_atomic_inc(&pp_flag[0], 0); break;
        }
        shmem_long_wait_until(&pp_flag[1], SHMEM_CMP_EQ, 1);
    }
    shmem_barrier_all();
    mc_end();
    shmem_finalize();
}
