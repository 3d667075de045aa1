#ifndef SETUP_H
#define SETUP_H
#include "ops.h"
/* common setup; space and context when arg space/ctx is set */
static shmemx_space_t sp0, sp1, sp2;
static shmem_ctx_t cx1, cx2;
MC_SYMM static long setup_cell[1];
static inline void preroll(void)
{
    int pre = mc_arg("preroll", 0); /* use up identifiers */
    for (int i = 0; i < pre; i++) { long r = shmem_long_atomic_fetch_inc(setup_cell, (mc_pe() + 1) % mc_npes()); mc_assert(r == i, "operation %d of a long history returned %ld", i, r); }
    if (pre) shmem_barrier_all();
}
static inline void setup(void)
{
    int want = mc_arg("space", 0);
    shmem_init();
    if (mc_arg("unatt", 0)) { /* a space that was created before the others and is not attached */
        shmemx_space_config_t c0 = { .sheap_size = 512, .num_contexts = 1, .memkind = SHMEMX_MEM_HOST };
        shmemx_space_create(c0, &sp0);
    }
    if (want) {
        shmemx_space_config_t c = { .sheap_size = mc_arg("spsize", 1024), .num_contexts = mc_arg("nctx", 2), .memkind = SHMEMX_MEM_HOST };
        shmemx_space_create(c, &sp1);
        shmemx_space_attach(sp1);
        if (want > 1) { /* a second, idle space; 3: created but never attached */
            shmemx_space_config_t c2 = { .sheap_size = mc_arg("opsp", 1) == 2 ? 1024 : 512, .num_contexts = mc_arg("nctx", 1), .memkind = SHMEMX_MEM_HOST };
            shmemx_space_create(c2, &sp2);
            if (want == 2) shmemx_space_attach(sp2);
        }
    }
    if (mc_arg("opsp", 1) == 2) { shmemx_space_t t = sp1; sp1 = sp2; sp2 = t; } /* operate on the second space */
    ops_init(1, sp1);
    if (mc_arg("ctx", 0)) {
        mc_assert(shmemx_space_create_ctx(sp1, 0, &cx1) == SHMEM_SUCCESS, "space_create_ctx failed");
        mc_assert(shmemx_space_create_ctx(sp1, 0, &cx2) == SHMEM_SUCCESS, "space_create_ctx failed");
    }
    shmem_barrier_all();
    preroll();
}
static inline void teardown(void)
{
    shmem_barrier_all();
    if (cx1) { shmem_ctx_destroy(cx1); shmem_ctx_destroy(cx2); }
    if (sp1) { shmem_free(ops_sp); shmemx_space_detach(sp1); shmemx_space_destroy(sp1); }
    if (sp2) { if (mc_arg("space", 0) == 2) shmemx_space_detach(sp2); shmemx_space_destroy(sp2); }
    if (sp0) shmemx_space_destroy(sp0);
    shmem_finalize();
}

/* strided active sets: members PE start + i * 2^log */
typedef struct { int start, log, size; } set_t;
static inline int set_pe(set_t s, int i) { return s.start + (i << s.log); }
static inline int set_rank(set_t s, int pe) { for (int i = 0; i < s.size; i++) if (set_pe(s, i) == pe) return i; return -1; }
/* all valid active sets of n PEs; returns the number */
static inline int sets_all(int n, set_t *out)
{
    int c = 0;
    for (int size = n; size >= 1; size--) for (int log = 0; log < (size == 1 ? 1 : 4); log++) for (int st = 0; st < n; st++) if (st + ((size - 1) << log) < n) out[c++] = (set_t) { st, log, size };
    return c;
}
#endif
