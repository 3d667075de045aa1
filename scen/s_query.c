/* P28: queries about the job and the memory layout, in every state of the symmetric memory */
#include "setup.h"
#include <limits.h>
MC_SYMM static char q_static[100];
extern char symm_first[64], symm_last[61];
static char q_private[100];
static shmemx_space_t QS[2];
static void *qb[2], *qh[2];
static int qst[2];
static void query_addr(const void *a, int n, const char *what)
{
    uintptr_t x = (uintptr_t) a;
    int in = 0;
    void *lo; size_t len;
    for (int i = 0; mc_segment(i, &lo, &len); i++) if (x >= (uintptr_t) lo && x - (uintptr_t) lo < len) in = 1;
    static const int pes[] = { INT_MIN, -2, -1, 0, 1, 2, 3, 4, 5, 100, INT_MAX };
    for (int k = 0; k < (int) (sizeof pes / sizeof *pes); k++) {
        int p = pes[k], ok = in && p >= 0 && p < n, r = shmem_addr_accessible(a, p), r2 = p >= -1 && p <= 5 ? shmem_addr_accessible(a, p) : r;
        mc_assert(r == ok && r2 == ok, "shmem_addr_accessible of an address %s (%s a symmetric segment) on PE %d of %d returned %d", what, in ? "inside" : "outside", p, n, r);
    }
}
static void query(int n, int me)
{
    mc_assert(shmem_my_pe() == me && _my_pe() == me, "shmem_my_pe returned %d on PE %d", shmem_my_pe(), me);
    mc_assert(shmem_n_pes() == n && _num_pes() == n, "shmem_n_pes returned %d instead of %d", shmem_n_pes(), n);
    static const int pes[] = { INT_MIN, INT_MIN + 1, -1000, -2, -1, 0, 1, 2, 3, 4, 5, 6, 100, INT_MAX - 1, INT_MAX };
    for (int k = 0; k < (int) (sizeof pes / sizeof *pes); k++)
        mc_assert(shmem_pe_accessible(pes[k]) == (pes[k] >= 0 && pes[k] < n), "shmem_pe_accessible(%d) of %d PEs returned %d", pes[k], n, shmem_pe_accessible(pes[k]));
    void *lo; size_t len;
    static const long off[] = { -4096, -8, -1, 0, 1, 7, 8 };
    for (int i = 0; mc_segment(i, &lo, &len); i++) {
        for (int k = 0; k < (int) (sizeof off / sizeof *off); k++) { query_addr((char *) lo + off[k], n, "near the start of a segment"); query_addr((char *) lo + len + off[k], n, "near the end of a segment"); }
        query_addr((char *) lo + len / 2, n, "in the middle of a segment");
    }
    static const char *nm[] = { "of static symmetric data", "of a heap block", "of a block of a space" };
    const void *obj[] = { q_static, q_static + 99, qh[0], qh[1], qb[0], qb[1], symm_first, symm_last, symm_last + 60, symm_first + 63 };
    static const int on[] = { 0, 0, 1, 1, 2, 2, 0, 0, 0, 0 };
    for (int i = 0; i < 10; i++) {
        if (!obj[i]) continue;
        query_addr(obj[i], n, nm[on[i]]);
        int must = on[i] < 2 || qst[i - 4] == 2;
        for (int p = 0; p < n; p++) {
            int r = shmem_addr_accessible(obj[i], p);
            mc_assert(r == must, "an address %s%s is reported %saccessible on PE %d", nm[on[i]], on[i] == 2 && qst[i - 4] < 2 ? " that is not attached" : "", r ? "" : "not ", p);
            if (must) {
                void *q = shmem_ptr(obj[i], p);
                mc_assert(q == NULL || q == mc_remote(obj[i], p), "shmem_ptr of an address %s on PE %d is neither null nor the object's address", nm[on[i]], p);
                if (p == me) mc_assert(q == obj[i], "shmem_ptr of an own address %s is not that address", nm[on[i]]);
            }
        }
        if (must) for (int p = -2; p < n + 3; p++) if (p < 0 || p >= n) mc_assert(shmem_ptr(obj[i], p) == NULL, "shmem_ptr on PE %d of %d is not null", p, n);
    }
    char local;
    char *m = malloc(16);
    query_addr(q_private, n, "of private data");
    query_addr(&local, n, "on the stack");
    query_addr(m, n, "of private heap memory");
    query_addr(NULL, n, "0");
    query_addr((void *) -1L, n, "-1");
    query_addr((void *) (intptr_t) query, n, "of code");
    free(m);
    int a = -7, b = -7;
    shmem_info_get_version(&a, &b);
    mc_assert(a == SHMEM_MAJOR_VERSION && b == SHMEM_MINOR_VERSION && a == _SHMEM_MAJOR_VERSION && b == _SHMEM_MINOR_VERSION, "shmem_info_get_version returned %d.%d", a, b);
    static char name[SHMEM_MAX_NAME_LEN + 16];
    memset(name, 0x55, sizeof name);
    shmem_info_get_name(name);
    mc_assert(!strcmp(name, SHMEM_VENDOR_STRING), "shmem_info_get_name returned something else than the vendor string");
    for (int i = 0; i < 16; i++) mc_assert(name[SHMEM_MAX_NAME_LEN + i] == 0x55, "shmem_info_get_name wrote beyond SHMEM_MAX_NAME_LEN");
    shmem_team_t tm = SHMEM_TEAM_INVALID;
    mc_assert(shmem_ctx_get_team(SHMEM_CTX_DEFAULT, &tm) == 0 && tm == SHMEM_TEAM_WORLD, "shmem_ctx_get_team of the default context is not the world team");
    mc_assert(shmem_ctx_get_team(SHMEM_CTX_INVALID, &tm) != 0 && tm == SHMEM_TEAM_INVALID, "shmem_ctx_get_team of the invalid context gave a team");
    unsigned char c0[sizeof q_static];
    memcpy(c0, q_static, sizeof c0);
    shmem_set_cache_inv(); shmem_clear_cache_inv(); shmem_udcflush(); shmem_udcflush_line(q_static); shmem_set_cache_line_inv(q_static); shmem_clear_cache_line_inv(q_static + 50); shmem_pcontrol(0); shmem_pcontrol(1);
    mc_assert(!memcmp(c0, q_static, sizeof c0), "a cache control routine changed memory");
    shmem_query_thread(&a);
    mc_assert(a == SHMEM_THREAD_SINGLE || a == SHMEM_THREAD_FUNNELED || a == SHMEM_THREAD_SERIALIZED || a == SHMEM_THREAD_MULTIPLE, "shmem_query_thread returned %d", a);
}
MC_SCEN(query_seq)
{
    shmem_init();
    int n = mc_npes(), me = mc_pe(), depth = mc_arg("depth", 4), nsp = mc_arg("nsp", 1);
    query(n, me);
    for (int s = 0; s < depth; s++) {
        int list[20][2], c = 0;
        for (int i = 0; i < nsp; i++) for (int o = 0; o < 4; o++) if (o == 0 ? qst[i] == 0 : o == 1 ? qst[i] == 1 : o == 2 ? qst[i] == 2 : qst[i] == 1) { list[c][0] = i; list[c++][1] = o; }
        for (int i = 0; i < 2; i++) { list[c][0] = i; list[c++][1] = 4; }
        int x = mc_choose_all(c), i = list[x][0];
        switch (list[x][1]) {
        case 0: { shmemx_space_config_t k = { .sheap_size = 1024 + 1024 * i, .num_contexts = i, .memkind = SHMEMX_MEM_HOST }; shmemx_space_create(k, &QS[i]); qb[i] = shmemx_space_malloc(QS[i], 100); qst[i] = 1; break; }
        case 1: shmemx_space_attach(QS[i]); qst[i] = 2; break;
        case 2: shmemx_space_detach(QS[i]); qst[i] = 1; break;
        case 3: shmem_free(qb[i]); qb[i] = NULL; shmemx_space_destroy(QS[i]); qst[i] = 0; break;
        case 4: if (qh[i]) { shmem_free(qh[i]); qh[i] = NULL; } else qh[i] = shmem_malloc(i ? 3000 : 64); break;
        }
        query(n, me);
    }
    for (int i = 0; i < 2; i++) { if (qst[i] == 2) { shmemx_space_detach(QS[i]); qst[i] = 1; } if (qst[i]) { shmem_free(qb[i]); shmemx_space_destroy(QS[i]); } }
    shmem_finalize();
}
