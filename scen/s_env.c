/* P26: sizes of the symmetric heap, message switches */
#include "ops.h"
static const char *num[] = { "1", "3", "7", "10", "64", "100", "999", "1000", "1023", "1024", "1025", "4095", "4096", "4097", "8191", "65535", "65536", "65537", "100000", "1048575", "1048577", "3250586", "16777217",
    "0.5", "1.5", "2.25", "3.1", "0.001", "1.0009765625", "7.999", "12.", "033", "2.5e1", "0.1" };
static const char suf[] = { 0, 'K', 'k', 'M', 'm', 'G', 'g', 'T', 't' };
/* bytes requested: digits[.digits] times the unit, rounded up; exact integer arithmetic */
static __int128 want_bytes(const char *s)
{
    __int128 v = 0, d = 1;
    int frac = 0, e10 = 0;
    for (; (*s >= '0' && *s <= '9') || *s == '.'; s++) { if (*s == '.') frac = 1; else { v = v * 10 + (*s - '0'); if (frac) d *= 10; } }
    if (*s == 'e') { e10 = s[1] - '0'; s += 2; }
    while (e10-- > 0) v *= 10;
    int sh = *s == 0 ? 0 : *s == 'K' || *s == 'k' ? 10 : *s == 'M' || *s == 'm' ? 20 : *s == 'G' || *s == 'g' ? 30 : 40;
    v <<= sh;
    return (v + d - 1) / d;
}
MC_SCEN(env_size)
{
    char s[64];
    /* all strings whose size is at most 4 TB; decimals need a unit */
    static struct { char n, u; } c[400];
    int nc = 0, lo = mc_arg("from", 0), hi = mc_arg("to", sizeof num / sizeof *num);
    for (int i = lo; i < hi; i++) for (int j = 0; j < (int) sizeof suf; j++) {
        snprintf(s, sizeof s, "%s%c", num[i], suf[j]);
        if (suf[j] == 0 && (strchr(num[i], '.') || strchr(num[i], 'e'))) continue;
        if (want_bytes(s) > (__int128) 4 << 40) continue;
        c[nc].n = i; c[nc++].u = j;
    }
    int k = mc_choose_all(nc);
    snprintf(s, sizeof s, "%s%c", num[(int) c[k].n], suf[(int) c[k].u]);
    size_t w = want_bytes(s);
    mc_setenv("SHMEM_SYMMETRIC_SIZE", s);
    shmem_init();
    int me = shmem_my_pe(), n = shmem_n_pes();
    /* the requested bytes are obtainable, as one block and as two */
    for (int split = 1; split <= 2; split++) {
        size_t q = w / split;
        if (!q) continue;
        char *b[2] = { NULL, NULL };
        for (int i = 0; i < split; i++) {
            b[i] = shmem_malloc(q);
            mc_assert(b[i] != NULL, "SHMEM_SYMMETRIC_SIZE=%s: block %d of %d of %zu bytes cannot be allocated (%zu requested)", s, i + 1, split, q, w);
            for (int p = 0; p < n; p++) mc_assert(shmem_addr_accessible(b[i], p) && shmem_addr_accessible(b[i] + q - 1, p), "SHMEM_SYMMETRIC_SIZE=%s: an allocated block of %zu bytes is not fully accessible", s, q);
            char v = 10 + me, r = 0;
            shmem_char_p(&b[i][q - 1], v, (me + 1) % n);
            shmem_barrier_all();
            mc_assert(b[i][q - 1] == 10 + (me + n - 1) % n, "SHMEM_SYMMETRIC_SIZE=%s: put to the last byte lost", s);
            r = shmem_char_g(&b[i][q - 1], (me + 1) % n);
            mc_assert(r == v, "SHMEM_SYMMETRIC_SIZE=%s: get of the last byte wrong", s);
        }
        for (int i = 0; i < split; i++) shmem_free(b[i]);
    }
    mc_leakcheck();
    shmem_finalize();
}
/* message switches and unknown settings do not change results */
MC_SCEN(env_switches)
{
    static const char *key[] = { "SHMEM_DEBUG", "SHMEM_VERSION", "SHMEM_INFO", "OSHMPI_VERBOSE" }, *val[] = { NULL, "0", "1", "2", "" };
    static const char *mode[] = { NULL, "am", "direct", "auto", "" };
    static const char *gpu[] = { "none", "all", "put,get", "pt2pt", "acc,pt2pt", "pt2pt,put,get,acc", "get", "other", "" };
    if (mc_arg("gpu", 0)) mc_setenv("OSHMPI_MPI_GPU_FEATURES", gpu[mc_choose_all(9)]);
    else for (int i = 0; i < 4; i++) { int c = mc_choose_all(mc_arg("vals", 3)); if (val[c]) mc_setenv(key[i], val[c]); }
    int a = mc_choose_all(5), r = mc_choose_all(5);
    if (mode[a]) mc_setenv("OSHMPI_AMO_DBG_MODE", mode[a]);
    if (mode[r]) mc_setenv("OSHMPI_RMA_DBG_MODE", mode[r]);
    shmem_init();
    int me = shmem_my_pe(), n = shmem_n_pes();
    ops_init(1, NULL);
    shmem_barrier_all();
    static const int ops[] = { OP_PUT, OP_IPUT, OP_ADD, OP_GETNBI_H, OP_FADDNBI, OP_PUTNBI_H, OP_CSWAP, OP_IGET };
    for (int k = 0; k < (int) (sizeof ops / sizeof *ops); k++) {
        int pe = (me + 1) % n;
        ops_issue(ops[k], 0, pe);
        shmem_quiet();
        ops_check_remote(ops[k], 0, me, pe, "after quiet");
        ops_check_local(ops[k], 0, "after quiet");
        shmem_barrier_all();
        ops_reset(ops_st); ops_reset(ops_hp);
        shmem_barrier_all();
    }
    shmem_finalize();
}
