/* P06 atomicity of concurrent atomics, P07 results of every atomic */
#include "setup.h"
enum { A_FETCH, A_SET, A_SWAP, A_CSWAP, A_FINC, A_INC, A_FADD, A_ADD, A_FAND, A_AND, A_FOR, A_OR, A_FXOR, A_XOR, A_N };
static const char *an[] = { "fetch", "set", "swap", "compare_swap", "fetch_inc", "inc", "fetch_add", "add", "fetch_and", "and", "fetch_or", "or", "fetch_xor", "xor" };
enum { F_STD, F_CTX, F_NBI, F_CTXNBI, F_OLD, F_C11, F_N };
static const char *fn[] = { "", " (ctx)", " (nbi)", " (ctx, nbi)", " (old name)", " (generic)" };
static inline int a_fetches(int op) { return op == A_FETCH || op == A_SWAP || op == A_CSWAP || op == A_FINC || op == A_FADD || op == A_FAND || op == A_FOR || op == A_FXOR; }
typedef struct { const char *name; int size; int kind; /* bit 0: std, bit 1: ext, bit 2: bitwise, bit 3: floating */
    int (*call)(int op, int form, shmem_ctx_t c, void *d, void *f, const void *v, const void *cond, int pe); /* 0: no such routine */
    void (*ref)(int op, const void *old, const void *v, const void *cond, void *nw);
    void (*val)(int i, void *v); } at_t;
#define NVAL 6
#define CTXD c
#define R(x) do { *f = (x); return 1; } while (0)
#define V(x) do { (x); return 1; } while (0)
#define STD(T, N, U) static int std_##N(int op, int form, shmem_ctx_t c, T *d, T *f, T v, T cond, int pe) { \
    switch (op * 8 + form) { \
    case A_CSWAP * 8 + F_STD: R(shmem_##N##_atomic_compare_swap(d, cond, v, pe)); case A_CSWAP * 8 + F_CTX: R(shmem_ctx_##N##_atomic_compare_swap(CTXD, d, cond, v, pe)); \
    case A_CSWAP * 8 + F_NBI: V(shmem_##N##_atomic_compare_swap_nbi(f, d, cond, v, pe)); case A_CSWAP * 8 + F_CTXNBI: V(shmem_ctx_##N##_atomic_compare_swap_nbi(CTXD, f, d, cond, v, pe)); \
    case A_CSWAP * 8 + F_OLD: R(shmem_##N##_cswap(d, cond, v, pe)); case A_CSWAP * 8 + F_C11: R(shmem_atomic_compare_swap(d, cond, v, pe)); \
    case A_FINC * 8 + F_STD: R(shmem_##N##_atomic_fetch_inc(d, pe)); case A_FINC * 8 + F_CTX: R(shmem_ctx_##N##_atomic_fetch_inc(CTXD, d, pe)); \
    case A_FINC * 8 + F_NBI: V(shmem_##N##_atomic_fetch_inc_nbi(f, d, pe)); case A_FINC * 8 + F_CTXNBI: V(shmem_ctx_##N##_atomic_fetch_inc_nbi(CTXD, f, d, pe)); \
    case A_FINC * 8 + F_OLD: R(shmem_##N##_finc(d, pe)); case A_FINC * 8 + F_C11: R(shmem_atomic_fetch_inc(d, pe)); \
    case A_INC * 8 + F_STD: V(shmem_##N##_atomic_inc(d, pe)); case A_INC * 8 + F_CTX: V(shmem_ctx_##N##_atomic_inc(CTXD, d, pe)); \
    case A_INC * 8 + F_OLD: V(shmem_##N##_inc(d, pe)); case A_INC * 8 + F_C11: V(shmem_atomic_inc(d, pe)); \
    case A_FADD * 8 + F_STD: R(shmem_##N##_atomic_fetch_add(d, v, pe)); case A_FADD * 8 + F_CTX: R(shmem_ctx_##N##_atomic_fetch_add(CTXD, d, v, pe)); \
    case A_FADD * 8 + F_NBI: V(shmem_##N##_atomic_fetch_add_nbi(f, d, v, pe)); case A_FADD * 8 + F_CTXNBI: V(shmem_ctx_##N##_atomic_fetch_add_nbi(CTXD, f, d, v, pe)); \
    case A_FADD * 8 + F_OLD: R(shmem_##N##_fadd(d, v, pe)); case A_FADD * 8 + F_C11: R(shmem_atomic_fetch_add(d, v, pe)); \
    case A_ADD * 8 + F_STD: V(shmem_##N##_atomic_add(d, v, pe)); case A_ADD * 8 + F_CTX: V(shmem_ctx_##N##_atomic_add(CTXD, d, v, pe)); \
    case A_ADD * 8 + F_OLD: V(shmem_##N##_add(d, v, pe)); case A_ADD * 8 + F_C11: V(shmem_atomic_add(d, v, pe)); \
    } return 0; }
#define EXT(T, N) static int ext_##N(int op, int form, shmem_ctx_t c, T *d, T *f, T v, int pe) { \
    switch (op * 8 + form) { \
    case A_FETCH * 8 + F_STD: R(shmem_##N##_atomic_fetch(d, pe)); case A_FETCH * 8 + F_CTX: R(shmem_ctx_##N##_atomic_fetch(CTXD, d, pe)); \
    case A_FETCH * 8 + F_NBI: V(shmem_##N##_atomic_fetch_nbi(f, d, pe)); case A_FETCH * 8 + F_CTXNBI: V(shmem_ctx_##N##_atomic_fetch_nbi(CTXD, f, d, pe)); \
    case A_FETCH * 8 + F_OLD: R(shmem_##N##_fetch(d, pe)); case A_FETCH * 8 + F_C11: R(shmem_atomic_fetch(d, pe)); \
    case A_SET * 8 + F_STD: V(shmem_##N##_atomic_set(d, v, pe)); case A_SET * 8 + F_CTX: V(shmem_ctx_##N##_atomic_set(CTXD, d, v, pe)); \
    case A_SET * 8 + F_OLD: V(shmem_##N##_set(d, v, pe)); case A_SET * 8 + F_C11: V(shmem_atomic_set(d, v, pe)); \
    case A_SWAP * 8 + F_STD: R(shmem_##N##_atomic_swap(d, v, pe)); case A_SWAP * 8 + F_CTX: R(shmem_ctx_##N##_atomic_swap(CTXD, d, v, pe)); \
    case A_SWAP * 8 + F_NBI: V(shmem_##N##_atomic_swap_nbi(f, d, v, pe)); case A_SWAP * 8 + F_CTXNBI: V(shmem_ctx_##N##_atomic_swap_nbi(CTXD, f, d, v, pe)); \
    case A_SWAP * 8 + F_OLD: R(shmem_##N##_swap(d, v, pe)); case A_SWAP * 8 + F_C11: R(shmem_atomic_swap(d, v, pe)); \
    } return 0; }
#define B1(O, U) case A_F##U * 8 + F_STD: R(BN(O, fetch_)); case A_F##U * 8 + F_CTX: R(BC(O, fetch_)); 
#define BITO(N, OP, o) \
    case A_F##OP * 8 + F_STD: R(shmem_##N##_atomic_fetch_##o(d, v, pe)); case A_F##OP * 8 + F_CTX: R(shmem_ctx_##N##_atomic_fetch_##o(CTXD, d, v, pe)); \
    case A_F##OP * 8 + F_NBI: V(shmem_##N##_atomic_fetch_##o##_nbi(f, d, v, pe)); case A_F##OP * 8 + F_CTXNBI: V(shmem_ctx_##N##_atomic_fetch_##o##_nbi(CTXD, f, d, v, pe)); \
    case A_F##OP * 8 + F_C11: R(shmem_atomic_fetch_##o(d, v, pe)); \
    case A_##OP * 8 + F_STD: V(shmem_##N##_atomic_##o(d, v, pe)); case A_##OP * 8 + F_CTX: V(shmem_ctx_##N##_atomic_##o(CTXD, d, v, pe)); \
    case A_##OP * 8 + F_C11: V(shmem_atomic_##o(d, v, pe));
#define BIT(T, N) static int bit_##N(int op, int form, shmem_ctx_t c, T *d, T *f, T v, int pe) { switch (op * 8 + form) { BITO(N, AND, and) BITO(N, OR, or) BITO(N, XOR, xor) } return 0; }
AMO_TYPES(STD) AMO_EXT_TYPES(EXT) AMO_BIT_TYPES(BIT)
/* reference: unsigned arithmetic of the width */
#define REFI(W, U) static void ref_i##W(int op, const void *o, const void *v, const void *cond, void *nw) { U x = *(const U *) o, y = *(const U *) v, z = *(const U *) cond, r = x; \
    switch (op) { case A_SET: case A_SWAP: r = y; break; case A_CSWAP: r = x == z ? y : x; break; case A_FINC: case A_INC: r = x + 1; break; case A_FADD: case A_ADD: r = x + y; break; \
    case A_FAND: case A_AND: r = x & y; break; case A_FOR: case A_OR: r = x | y; break; case A_FXOR: case A_XOR: r = x ^ y; break; } *(U *) nw = r; } \
    static void val_i##W(int i, void *v) { static const U t[NVAL] = { 0, 1, (U) -1, (U) -1 >> 1, ((U) -1 >> 1) + 1, (U) 0x5AA5C33C96693FF3ULL }; *(U *) v = t[i]; }
REFI(4, uint32_t) REFI(8, uint64_t)
static void val_f(int i, void *v) { static const float t[NVAL] = { 0, 1, -1.5f, 3e38f, 1e-40f, 16777217.0f }; *(float *) v = t[i]; }
static void val_d(int i, void *v) { static const double t[NVAL] = { 0, 1, -1.5, 1e308, 5e-324, 9007199254740993.0 }; *(double *) v = t[i]; }
#define C_INT(T, N, U) static int call_##N(int op, int form, shmem_ctx_t c, void *d, void *f, const void *v, const void *cond, int pe) { \
    if (op <= A_SWAP) return ext_##N(op, form, c, d, f, *(const T *) v, pe); if (op <= A_ADD) return std_##N(op, form, c, d, f, *(const T *) v, *(const T *) cond, pe); return CB_##N; }
#define CB_(N) bit_##N(op, form, c, d, f, *(const __typeof__(f_##N) *) v, pe)
/* types without bitwise atomics */
#define CB_int 0
#define CB_long 0
#define CB_longlong 0
#define CB_size 0
#define CB_ptrdiff 0
#define CB_uint bit_uint(op, form, c, d, f, *(const unsigned int *) v, pe)
#define CB_ulong bit_ulong(op, form, c, d, f, *(const unsigned long *) v, pe)
#define CB_ulonglong bit_ulonglong(op, form, c, d, f, *(const unsigned long long *) v, pe)
#define CB_int32 bit_int32(op, form, c, d, f, *(const int32_t *) v, pe)
#define CB_int64 bit_int64(op, form, c, d, f, *(const int64_t *) v, pe)
#define CB_uint32 bit_uint32(op, form, c, d, f, *(const uint32_t *) v, pe)
#define CB_uint64 bit_uint64(op, form, c, d, f, *(const uint64_t *) v, pe)
AMO_TYPES(C_INT)
static int call_float(int op, int form, shmem_ctx_t c, void *d, void *f, const void *v, const void *cond, int pe) { return op <= A_SWAP ? ext_float(op, form, c, d, f, *(const float *) v, pe) : 0; }
static int call_double(int op, int form, shmem_ctx_t c, void *d, void *f, const void *v, const void *cond, int pe) { return op <= A_SWAP ? ext_double(op, form, c, d, f, *(const double *) v, pe) : 0; }
#define E_INT(T, N, U) { #N, sizeof(T), 7, call_##N, sizeof(T) == 4 ? ref_i4 : ref_i8, sizeof(T) == 4 ? val_i4 : val_i8 },
static const at_t at[] = { AMO_TYPES(E_INT) { "float", 4, 10, call_float, ref_i4, val_f }, { "double", 8, 10, call_double, ref_i8, val_d } };
#define NAT NELEM(at)

MC_SYMM static unsigned char cell_s[48] __attribute__((aligned(16))) = { 1 };
static unsigned char *cell_h, *cell_p;
/* every type, operation, form, pair of values: one operation at a time */
MC_SYMM static long afl_s = 0;
MC_SCEN(amo_types)
{
    shmemx_space_t sp = NULL;
    shmem_ctx_t cx = SHMEM_CTX_DEFAULT;
    shmem_init();
    int me = shmem_my_pe(), n = shmem_n_pes(), wsp = mc_arg("space", 0);
    int fin = mc_arg("fin", 0); /* completion by: 0 quiet, 1 barrier, 2 fence and a flag put, 3 fence and a flag set atomically */
    cell_h = shmem_malloc(48);
    long *fl_h = shmem_malloc(8);
    *fl_h = afl_s = 0;
    if (wsp) {
        shmemx_space_config_t c = { .sheap_size = 2048, .num_contexts = 1, .memkind = SHMEMX_MEM_HOST };
        shmemx_space_create(c, &sp);
        shmemx_space_attach(sp);
        cell_p = shmemx_space_malloc(sp, 48);
        fl_h = shmemx_space_malloc(sp, 8);
        *fl_h = 0;
        mc_assert(shmemx_space_create_ctx(sp, 0, &cx) == SHMEM_SUCCESS, "space_create_ctx failed");
    }
    shmem_barrier_all();
    if (me == 0) {
        int t = mc_choose(NAT), op = mc_choose(A_N), form = mc_choose(F_N);
        int reg = wsp ? 2 : mc_choose(2), pe = mc_choose(n);
        int vs = mc_arg("vals", NVAL);
        int vi = mc_choose(vs), vo = mc_choose(vs);
        int cs = op == A_CSWAP ? mc_choose(3) : 0; /* cond equal; different; differing in one bit */
        const at_t *a = &at[t];
        unsigned char *b = reg == 0 ? cell_s : reg == 1 ? cell_h : cell_p;
        unsigned char *r = mc_remote(b, pe);
        unsigned char e[48], old[8], v[8], cond[8], f[24], ef[24];
        fill(r, 48, 77);
        a->val(vi, r + 16);
        a->val(vo, v);
        memcpy(old, r + 16, 8);
        memcpy(cond, old, 8);
        if (cs == 1) a->val((vi + 1) % NVAL, cond);
        if (cs == 2) cond[a->size - 1] ^= 0x40;
        memcpy(e, r, 48);
        a->ref(op, old, v, cond, e + 16);
        fill(f, 24, 5);
        memcpy(ef, f, 24);
        if (a_fetches(op)) memcpy(ef + 8, old, a->size);
        int ok = a->call(op, form, form == F_CTX || form == F_CTXNBI ? cx : SHMEM_CTX_DEFAULT, b + 16, f + 8, v, cond, pe);
        if (ok) {
            if (form != F_NBI && form != F_CTXNBI) for (int i = 0; i < 24; i++) mc_assert(f[i] == ef[i], "%s_atomic_%s%s: the fetched value (byte %d) is 0x%02x at return, expected 0x%02x", a->name, an[op], fn[form], i - 8, f[i], ef[i]);
            int ctx = (form == F_CTX || form == F_CTXNBI) && wsp;
            if (fin >= 2) {
                long *fl = wsp || (reg == 1) == (fin == 2) ? fl_h : &afl_s;
                if (ctx) shmem_ctx_fence(cx); else shmem_fence();
                if (fin == 2) shmem_ctx_long_p(ctx ? cx : SHMEM_CTX_DEFAULT, fl, 1, pe); else shmem_ctx_long_atomic_set(ctx ? cx : SHMEM_CTX_DEFAULT, fl, 1, pe);
                if (pe == me) shmem_long_wait_until(fl, SHMEM_CMP_NE, 0);
                while (RD(fl, pe) == 0) mc_point();
                for (int i = 0; i < 48; i++) mc_assert(r[i] == e[i], "%s_atomic_%s%s: whoever sees the flag written after the fence does not see the update (byte %d is 0x%02x, expected 0x%02x)", a->name, an[op], fn[form], i - 16, r[i], e[i]);
                if (form == F_NBI || form == F_CTXNBI) { if (ctx) shmem_ctx_quiet(cx); else shmem_quiet(); }
            } else if (ctx) shmem_ctx_quiet(cx);
            else if (fin == 1) shmem_barrier_all();
            else shmem_quiet();
            for (int i = 0; i < 24; i++) mc_assert(f[i] == ef[i], "%s_atomic_%s%s: the fetched value (byte %d) is 0x%02x, expected 0x%02x", a->name, an[op], fn[form], i - 8, f[i], ef[i]);
            for (int i = 0; i < 48; i++) mc_assert(r[i] == e[i], "%s_atomic_%s%s: the target (byte %d) is 0x%02x, expected 0x%02x (value %d, operand %d)", a->name, an[op], fn[form], i - 16, r[i], e[i], vi, vo);
            if (fin == 1 && ctx) shmem_barrier_all();
        } else if (fin == 1) shmem_barrier_all();
    } else if (fin == 1) shmem_barrier_all();
    shmem_barrier_all();
    if (wsp) { shmem_ctx_destroy(cx); shmem_free(fl_h); shmem_free(cell_p); shmemx_space_detach(sp); shmemx_space_destroy(sp); }
    shmem_finalize();
}

/* ---- P06: concurrent histories on one object */
typedef struct { int op, quiet; uint64_t v, cond; } hop_t;
MC_SYMM static uint64_t at_var[3] = { 3 };
static uint64_t *at_varh;
static uint64_t at_res[4][4];
static int lin_n, lin_pe[12], lin_ix[12];
static hop_t lin_op[4][4];
static int lin_cnt[4];
static uint64_t lin_got[4][4];
static uint64_t lin_mask, lin_final;
static uint64_t lin_apply(const hop_t *h, uint64_t x)
{
    uint64_t r = x;
    switch (h->op) {
    case A_SET: case A_SWAP: r = h->v; break;
    case A_CSWAP: r = x == h->cond ? h->v : x; break;
    case A_FINC: case A_INC: r = x + 1; break;
    case A_FADD: case A_ADD: r = x + h->v; break;
    case A_FAND: case A_AND: r = x & h->v; break;
    case A_FOR: case A_OR: r = x | h->v; break;
    case A_FXOR: case A_XOR: r = x ^ h->v; break;
    }
    return r & lin_mask;
}
static int lin_rec(uint64_t x, unsigned done, int npe)
{
    int all = 1;
    for (int p = 0; p < npe; p++)
        for (int i = 0; i < lin_cnt[p]; i++) {
            if (done >> (p * 4 + i) & 1) continue;
            all = 0;
            int ok = 1; /* earlier completed operations of the same PE must come first */
            for (int j = 0; j < i; j++) {
                int comp = a_fetches(lin_op[p][j].op); /* complete at return */
                for (int k = j; k < i; k++) comp |= lin_op[p][k].quiet;
                if (comp && !(done >> (p * 4 + j) & 1)) ok = 0;
            }
            if (!ok) continue;
            hop_t *h = &lin_op[p][i];
            if (a_fetches(h->op) && lin_got[p][i] != x) continue;
            if (lin_rec(lin_apply(h, x), done | 1u << (p * 4 + i), npe)) return 1;
        }
    return all && x == lin_final;
}
#define CALL8(T, N) case 8: break;
static uint64_t do_amo(const hop_t *h, int w, void *d, int nbi, uint64_t *fp, int pe)
{
    uint64_t v = h->v, c = h->cond, f = 0;
    uint32_t v4 = h->v, c4 = h->cond, f4 = 0;
    (void) nbi; (void) fp;
    if (w == 8) { int ix = mc_arg("ty", 9); /* uint64 */ at[ix].call(h->op, F_STD, SHMEM_CTX_DEFAULT, d, &f, &v, &c, pe); return f; }
    at[mc_arg("ty", 8)].call(h->op, F_STD, SHMEM_CTX_DEFAULT, d, &f4, &v4, &c4, pe);
    return f4;
}
MC_SCEN(amo_atomic)
{
    shmem_init();
    int me = shmem_my_pe(), n = shmem_n_pes(), per = mc_arg("per", 1), heap = mc_arg("heap", 0), w = mc_arg("w", 8), set = mc_arg("set", 0), tgt = mc_arg("tgt", 0);
    /* alphabets */
    static const int al0[] = { A_FADD, A_ADD, A_INC, A_FINC, A_CSWAP, A_SWAP, A_SET, A_FETCH };
    static const int al1[] = { A_FADD, A_CSWAP, A_FXOR, A_OR, A_FAND, A_SET, A_XOR, A_FOR, A_AND };
    static const int al2[] = { A_FADD, A_CSWAP, A_ADD, A_FETCH };
    static const int al3[] = { A_CSWAP, A_SWAP, A_INC, A_FOR }, al4[] = { A_FADD, A_CSWAP, A_INC }, al5[] = { A_FXOR, A_AND, A_SWAP };
    /* ID: with the operand that leaves the object's initial value unchanged */
    enum { ID = 64 };
    static const int al6[] = { A_CSWAP | ID, A_FADD, A_CSWAP, A_INC, A_SET | ID, A_OR | ID, A_SWAP | ID, A_FXOR | ID, A_FAND | ID, A_FADD | ID }, al7[] = { A_SET, A_SWAP, A_FETCH };
    const int *al = set == 7 ? al7 : set == 6 ? al6 : set == 0 ? al0 : set == 1 ? al1 : set == 2 ? al2 : set == 3 ? al3 : set == 4 ? al4 : al5;
    int na = set == 7 ? NELEM(al7) : set == 6 ? NELEM(al6) : set == 0 ? NELEM(al0) : set == 1 ? NELEM(al1) : set == 2 ? NELEM(al2) : set == 3 ? NELEM(al3) : 3;
    preroll();
    at_varh = shmem_malloc(3 * sizeof(uint64_t));
    uint64_t *var = (heap ? at_varh : at_var) + 1;
    lin_mask = w == 8 ? ~0ULL : 0xffffffffULL;
    at_var[0] = at_var[2] = at_varh[0] = at_varh[2] = ~0ULL;
    at_var[1] = at_varh[1] = 3;
    int q = mc_arg("quiet", 0) ? mc_choose_all(2) : 0, nt = mc_arg("actors", n);
    for (int p = 0; p < nt; p++) {
        lin_cnt[p] = per;
        for (int i = 0; i < per; i++) {
            hop_t *h = &lin_op[p][i];
            h->op = al[mc_choose_all(na)];
            h->v = 16 << (4 * (p * per + i)) | 5 + p;
            h->cond = 3; /* the initial value */
            if (i == 1) h->cond = 3 + lin_op[p][0].v;
            if (h->op & ID) { h->op &= ~ID; h->v = h->op == A_CSWAP || h->op == A_SET || h->op == A_SWAP ? h->cond : h->op == A_FAND ? ~0ULL : 0; }
            h->quiet = q;
        }
    }
    shmem_barrier_all();
    mc_begin();
    if (me < nt)
        for (int i = 0; i < per; i++) {
            at_res[me][i] = do_amo(&lin_op[me][i], w, var, 0, 0, tgt);
            mc_obs(i, at_res[me][i]);
            if (q) shmem_quiet();
        }
    shmem_barrier_all();
    mc_end();
    if (me == 0) {
        for (int p = 0; p < nt; p++) for (int i = 0; i < per; i++) lin_got[p][i] = mc_get_obs(p, i);
        uint64_t *r = mc_remote(var, tgt);
        lin_final = *r & lin_mask;
        mc_assert(r[-1] == ~0ULL && r[1] == ~0ULL, "a neighbour of the atomic object was changed");
        if (!lin_rec(3, 0, nt)) {
            char s[400] = "";
            for (int p = 0; p < nt; p++) for (int i = 0; i < per; i++) snprintf(s + strlen(s), sizeof s - strlen(s), " PE%d:%s(0x%lx)->0x%lx", p, an[lin_op[p][i].op], (long) lin_op[p][i].v, (long) lin_got[p][i]);
            mc_fail("no order of the atomic operations explains the result (initial 0x3, final 0x%lx):%s", (long) lin_final, s);
        }
        if (w == 4) mc_assert((*r >> 32) == 0, "the neighbour of a 4-byte atomic object was changed");
    }
    shmem_finalize();
}
/* non-blocking fetching atomics: results valid after quiet */
MC_SCEN(amo_atomic_nbi)
{
    shmem_init();
    int me = shmem_my_pe(), n = shmem_n_pes(), tgt = mc_arg("tgt", 0);
    static const int al[] = { A_FADD, A_SWAP, A_CSWAP, A_FXOR, A_FETCH };
    lin_mask = ~0ULL;
    at_var[0] = at_var[2] = ~0ULL;
    at_var[1] = 3;
    for (int p = 0; p < n; p++) {
        lin_cnt[p] = 2;
        for (int i = 0; i < 2; i++) {
            hop_t *h = &lin_op[p][i];
            h->op = i ? (p ? A_FADD : A_ADD) : al[mc_choose_all(NELEM(al))];
            h->v = 16 << (4 * (p * 2 + i)) | 5 + p;
            h->cond = 3;
        }
    }
    shmem_barrier_all();
    mc_begin();
    uint64_t res[2] = { 0, 0 };
    for (int i = 0; i < 2; i++) {
        hop_t *h = &lin_op[me][i];
        if (!at[9].call(h->op, F_NBI, SHMEM_CTX_DEFAULT, &at_var[1], &res[i], &h->v, &h->cond, tgt)) at[9].call(h->op, F_STD, SHMEM_CTX_DEFAULT, &at_var[1], &res[i], &h->v, &h->cond, tgt);
    }
    shmem_quiet();
    for (int i = 0; i < 2; i++) mc_obs(i, res[i]);
    shmem_barrier_all();
    mc_end();
    if (me == 0) {
        for (int p = 0; p < n; p++) for (int i = 0; i < 2; i++) lin_got[p][i] = mc_get_obs(p, i);
        lin_final = RD(&at_var[1], tgt);
        /* without a quiet between them nonblocking operations of one PE are unordered */
        int save[4];
        for (int p = 0; p < n; p++) save[p] = lin_cnt[p];
        uint64_t fin = lin_final;
        (void) save;
        extern int lin_unordered(uint64_t x, unsigned done, int npe);
        if (!lin_unordered(3, 0, n)) {
            char s[400] = "";
            for (int p = 0; p < n; p++) for (int i = 0; i < 2; i++) snprintf(s + strlen(s), sizeof s - strlen(s), " PE%d:%s(0x%lx)->0x%lx", p, an[lin_op[p][i].op], (long) lin_op[p][i].v, (long) lin_got[p][i]);
            mc_fail("no order of the nonblocking atomic operations explains the result (initial 0x3, final 0x%lx):%s", (long) fin, s);
        }
    }
    shmem_finalize();
}
int lin_unordered(uint64_t x, unsigned done, int npe)
{
    int all = 1;
    for (int p = 0; p < npe; p++)
        for (int i = 0; i < lin_cnt[p]; i++) {
            if (done >> (p * 4 + i) & 1) continue;
            all = 0;
            hop_t *h = &lin_op[p][i];
            if (a_fetches(h->op) && lin_got[p][i] != x) continue;
            if (lin_unordered(lin_apply(h, x), done | 1u << (p * 4 + i), npe)) return 1;
        }
    return all && x == lin_final;
}
/* P26: every declared set of atomics (OSHMPI_AMO_OPS), using only what was declared */
MC_SCEN(amo_opslist)
{
    static const char *on[A_N] = { "fetch", "set", "swap", "cswap", "finc", "inc", "fadd", "add", "fand", "and", "for", "or", "fxor", "xor" };
    static const char *special[] = { "any_op", "all", "cswap,finc,inc,fadd,add,fetch,set,swap,fand,and,for,or,fxor,xor", "xor,fxor,or,for,and,fand,swap,set,fetch,add,fadd,inc,finc,cswap", "" };
    int maxk = mc_arg("maxk", 2), mink = mc_arg("mink", 1), rev = mc_arg("rev", 0), per = mc_arg("per", 1), n = mc_npes();
    unsigned masks[1200];
    int nm = 0;
    if (mc_arg("special", 0)) nm = NELEM(special);
    else for (unsigned m = 1; m < 1u << A_N; m++) if (__builtin_popcount(m) <= maxk && __builtin_popcount(m) >= mink) { mc_assert(nm < 1200, "internal: masks"); masks[nm++] = m; }
    int c = mc_choose_all(nm);
    unsigned m = mc_arg("special", 0) ? (1u << A_N) - 1 : masks[c];
    char s[200] = "";
    int al[A_N], na = 0;
    for (int i = 0; i < A_N; i++) {
        int k = rev ? A_N - 1 - i : i;
        if (m >> k & 1) { al[na++] = k; snprintf(s + strlen(s), sizeof s - strlen(s), "%s%s", *s ? "," : "", on[k]); }
    }
    mc_setenv("OSHMPI_AMO_OPS", mc_arg("special", 0) ? special[c] : s);
    shmem_init();
    int me = shmem_my_pe();
    at_var[0] = at_var[2] = ~0ULL;
    at_var[1] = 3;
    lin_mask = ~0ULL;
    for (int p = 0; p < n; p++) {
        lin_cnt[p] = per;
        for (int i = 0; i < per; i++) { hop_t *h = &lin_op[p][i]; h->op = al[mc_choose_all(na)]; h->v = 16 << (4 * (p * per + i)) | 5 + p; h->cond = 3; h->quiet = 0; }
    }
    shmem_barrier_all();
    mc_begin();
    for (int i = 0; i < per; i++) { at_res[me][i] = do_amo(&lin_op[me][i], 8, &at_var[1], 0, 0, 0); mc_obs(i, at_res[me][i]); }
    shmem_barrier_all();
    mc_end();
    if (me == 0) {
        for (int p = 0; p < n; p++) for (int i = 0; i < per; i++) lin_got[p][i] = mc_get_obs(p, i);
        lin_final = at_var[1];
        mc_assert(at_var[0] == ~0ULL && at_var[2] == ~0ULL, "a neighbour of the atomic object was changed");
        if (!lin_rec(3, 0, n)) {
            char t[400] = "";
            for (int p = 0; p < n; p++) for (int i = 0; i < per; i++) snprintf(t + strlen(t), sizeof t - strlen(t), " PE%d:%s(0x%lx)->0x%lx", p, an[lin_op[p][i].op], (long) lin_op[p][i].v, (long) lin_got[p][i]);
            mc_fail("OSHMPI_AMO_OPS=%s: no order of the atomic operations explains the result (initial 0x3, final 0x%lx):%s", mc_arg("special", 0) ? special[c] : s, (long) lin_final, t);
        }
    }
    shmem_finalize();
}
