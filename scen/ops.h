/* A table of one-sided operations, each with its own slot per (origin PE, index), used to build histories. */
#ifndef OPS_H
#define OPS_H
#include "scen.h"
#define OPS_MAXI 4
enum { OP_PUT, OP_PUTNBI, OP_P, OP_IPUT, OP_PUTMEM_H, OP_PUTNBI_H, OP_GETNBI, OP_GETNBI_H, OP_GET,
       OP_ADD, OP_INC, OP_SET, OP_OR, OP_FADDNBI, OP_SWAPNBI, OP_ADD_H, OP_FADD, OP_CSWAP, OP_XOR_H, OP_IGET, OP_G, OP_IPUT_H,
       OP_BASIC, /* number of operations that need no memory space */
       OP_PUT_S = OP_BASIC, OP_ADD_S, OP_GETNBI_S, OP_PUTNBI_S, OP_FADDNBI_S, OP_N };
static const char *op_name[] = { "put", "put_nbi", "p", "iput", "putmem(heap)", "put_nbi(heap)", "get_nbi", "get_nbi(heap)", "get",
    "add", "inc", "set", "or", "fetch_add_nbi", "swap_nbi", "add(heap)", "fetch_add", "compare_swap", "xor(heap)", "iget", "g", "iput(heap)",
    "put(space)", "add(space)", "get_nbi(space)", "put_nbi(space)", "fetch_add_nbi(space)" };
#define ops_S (*ops_Sp)
typedef long ops_slot_t[4];
#define OPS_INIT 5L
MC_SYMM static ops_slot_t ops_st[9][OPS_MAXI]; /* [origin][index] */
static int ops_rows = 6;
static ops_slot_t (*ops_hp)[OPS_MAXI], (*ops_sp)[OPS_MAXI];
static ops_slot_t ops_loc[OPS_MAXI];
static long ops_pre[OPS_MAXI];   /* value in the slot before the operation */
static shmem_ctx_t ops_ctx;
static int ops_use_ctx;

static inline long ops_val(int origin, int i, int k) { return 1000L * (origin + 1) + 10 * i + k + 100000L; }
static inline void ops_reset(ops_slot_t (*b)[OPS_MAXI]) { if (b) for (int o = 0; o < ops_rows; o++) for (int i = 0; i < OPS_MAXI; i++) for (int k = 0; k < 4; k++) b[o][i][k] = OPS_INIT + k; }
/* memory; heap and space blocks must be allocated by all PEs */
static inline void ops_init(int heap, shmemx_space_t sp)
{
    if (mc_npes() > ops_rows) ops_rows = mc_npes();
    ops_reset(ops_st);
    ops_ctx = SHMEM_CTX_DEFAULT;
    if (heap) { ops_hp = shmem_malloc(ops_rows * sizeof ops_st[0]); mc_assert(ops_hp != NULL, "shmem_malloc failed"); ops_reset(ops_hp); }
    if (sp) { ops_sp = shmemx_space_malloc(sp, ops_rows * sizeof ops_st[0]); mc_assert(ops_sp != NULL, "space_malloc failed"); ops_reset(ops_sp); }
}
static inline ops_slot_t (*ops_base(int op))[OPS_MAXI]
{
    switch (op) {
    case OP_PUTMEM_H: case OP_PUTNBI_H: case OP_GETNBI_H: case OP_ADD_H: case OP_XOR_H: case OP_IPUT_H: return ops_hp;
    case OP_PUT_S: case OP_ADD_S: case OP_GETNBI_S: case OP_PUTNBI_S: case OP_FADDNBI_S: return ops_sp;
    default: return ops_st;
    }
}
static inline int ops_is_get(int op) { return op == OP_GETNBI || op == OP_GETNBI_H || op == OP_GET || op == OP_IGET || op == OP_G || op == OP_GETNBI_S; }
static inline int ops_is_blocking_fetch(int op) { return op == OP_GET || op == OP_IGET || op == OP_G || op == OP_FADD || op == OP_CSWAP; }
#define OC(t, call, ...) do { if (ops_use_ctx) shmem_ctx_##call(ops_ctx, __VA_ARGS__); else shmem_##call(__VA_ARGS__); } while (0)
#define OCV(r, call, ...) do { if (ops_use_ctx) r = shmem_ctx_##call(ops_ctx, __VA_ARGS__); else r = shmem_##call(__VA_ARGS__); } while (0)
static inline void ops_issue(int op, int i, int pe)
{
    int me = mc_pe();
    long *d = ops_base(op)[me][i], *l = ops_loc[i];
    for (int k = 0; k < 4; k++) l[k] = ops_is_get(op) ? -1 : ops_val(me, i, k);
    switch (op) {
    case OP_PUT: case OP_PUT_S: OC(, long_put, d, l, 3, pe); break;
    case OP_PUTNBI: case OP_PUTNBI_H: case OP_PUTNBI_S: OC(, long_put_nbi, d, l, 3, pe); break;
    case OP_P: OC(, long_p, d, l[0], pe); break;
    case OP_IPUT: case OP_IPUT_H: OC(, long_iput, d, l, 2, 1, 2, pe); break;
    case OP_PUTMEM_H: OC(, putmem, d, l, 4 * sizeof(long), pe); break;
    case OP_GETNBI: case OP_GETNBI_H: case OP_GETNBI_S: OC(, long_get_nbi, l, d, 3, pe); break;
    case OP_GET: OC(, long_get, l, d, 3, pe); break;
    case OP_IGET: OC(, long_iget, l, d, 1, 2, 2, pe); break;
    case OP_G: OCV(l[0], long_g, d, pe); break;
    case OP_ADD: case OP_ADD_H: case OP_ADD_S: OC(, long_atomic_add, d, l[0], pe); break;
    case OP_INC: OC(, long_atomic_inc, d, pe); break;
    case OP_SET: OC(, long_atomic_set, d, l[0], pe); break;
    case OP_OR: OC(, ulong_atomic_or, (unsigned long *) d, 0x700, pe); break;
    case OP_XOR_H: OC(, ulong_atomic_xor, (unsigned long *) d, 0x707, pe); break;
    case OP_FADDNBI: case OP_FADDNBI_S: OC(, long_atomic_fetch_add_nbi, &l[3], d, l[0], pe); break;
    case OP_SWAPNBI: OC(, long_atomic_swap_nbi, &l[3], d, l[0], pe); break;
    case OP_FADD: OCV(l[3], long_atomic_fetch_add, d, l[0], pe); break;
    case OP_CSWAP: OCV(l[3], long_atomic_compare_swap, d, OPS_INIT, l[0], pe); break;
    }
}
/* expected contents of the slot once the operation completed */
static inline void ops_expect(int op, int i, int origin, long e[4])
{
    for (int k = 0; k < 4; k++) e[k] = OPS_INIT + k;
    switch (op) {
    case OP_PUT: case OP_PUT_S: case OP_PUTNBI: case OP_PUTNBI_H: case OP_PUTNBI_S: for (int k = 0; k < 3; k++) e[k] = ops_val(origin, i, k); break;
    case OP_PUTMEM_H: for (int k = 0; k < 4; k++) e[k] = ops_val(origin, i, k); break;
    case OP_P: case OP_SET: case OP_SWAPNBI: case OP_CSWAP: e[0] = ops_val(origin, i, 0); break;
    case OP_IPUT: case OP_IPUT_H: e[0] = ops_val(origin, i, 0); e[2] = ops_val(origin, i, 1); break;
    case OP_ADD: case OP_ADD_H: case OP_ADD_S: case OP_FADDNBI: case OP_FADDNBI_S: case OP_FADD: e[0] += ops_val(origin, i, 0); break;
    case OP_INC: e[0]++; break;
    case OP_OR: e[0] |= 0x700; break;
    case OP_XOR_H: e[0] ^= 0x707; break;
    }
}
/* the slot on pe holds the result of the completed operation issued by origin */
static inline void ops_check_remote(int op, int i, int origin, int pe, const char *when)
{
    long e[4];
    ops_expect(op, i, origin, e);
    for (int k = 0; k < 4; k++) {
        long v = RD(&ops_base(op)[origin][i][k], pe);
        mc_assert(v == e[k], "%s: %s by PE %d to PE %d (operation %d of its history) is not complete: element %d is %ld, expected %ld", when, op_name[op], origin, pe, i, k, v, e[k]);
    }
}
static inline void ops_check_local(int op, int i, const char *when)
{
    long *l = ops_loc[i];
    switch (op) {
    case OP_GETNBI: case OP_GETNBI_H: case OP_GETNBI_S: case OP_GET:
        for (int k = 0; k < 3; k++) mc_assert(l[k] == OPS_INIT + k, "%s: %s result element %d is %ld, expected %ld", when, op_name[op], k, l[k], OPS_INIT + k);
        mc_assert(l[3] == -1, "%s: %s wrote beyond its destination", when, op_name[op]);
        break;
    case OP_IGET: mc_assert(l[0] == OPS_INIT && l[1] == OPS_INIT + 2 && l[2] == -1, "%s: iget result is %ld %ld %ld", when, l[0], l[1], l[2]); break;
    case OP_G: mc_assert(l[0] == OPS_INIT, "%s: g returned %ld", when, l[0]); break;
    case OP_FADDNBI: case OP_FADDNBI_S: case OP_SWAPNBI: case OP_FADD: case OP_CSWAP: mc_assert(l[3] == OPS_INIT, "%s: %s fetched %ld, expected %ld", when, op_name[op], l[3], OPS_INIT); break;
    }
}
#endif
