/* P19 teams: membership, numbering, translation, configuration, collectives, against a list model */
#include "setup.h"
#define TMAX 8
typedef struct { shmem_team_t h; int n, m[9], nc, live; } tm_t;
static tm_t T[TMAX];
static int nt;
MC_SYMM static long tsrc[4], tdst[16];
static int idx(const int *m, int n, int pe) { for (int i = 0; i < n; i++) if (m[i] == pe) return i; return -1; }
static void model_world(int ppn)
{
    int n = mc_npes(), me = mc_pe();
    T[0] = (tm_t) { SHMEM_TEAM_WORLD, n, { 0, 1, 2, 3, 4, 5, 6, 7, 8 }, 0, 1 };
    T[1] = (tm_t) { SHMEM_TEAM_SHARED, 0, { 0 }, 0, 1 };
    for (int p = 0; p < n; p++) if (p / ppn == me / ppn) T[1].m[T[1].n++] = p;
    nt = 2;
}
static void check_team(tm_t *t, const char *w)
{
    int me = mc_pe(), r = idx(t->m, t->n, me);
    if (r < 0) { mc_assert(t->h == SHMEM_TEAM_INVALID, "%s: PE %d is not a member but got a valid handle", w, me); mc_assert(shmem_team_my_pe(t->h) == -1 && shmem_team_n_pes(t->h) == -1, "%s: queries of an invalid team", w); return; }
    mc_assert(t->h != SHMEM_TEAM_INVALID, "%s: member %d got the invalid team", w, me);
    mc_assert(shmem_team_n_pes(t->h) == t->n, "%s: n_pes is %d, expected %d", w, shmem_team_n_pes(t->h), t->n);
    mc_assert(shmem_team_my_pe(t->h) == r, "%s: my_pe of PE %d is %d, expected %d", w, me, shmem_team_my_pe(t->h), r);
    for (int i = -2; i < t->n + 2; i++) {
        int e = i >= 0 && i < t->n ? t->m[i] : -1, g = shmem_team_translate_pe(t->h, i, SHMEM_TEAM_WORLD);
        mc_assert(g == e, "%s: member %d translates to world PE %d, expected %d", w, i, g, e);
    }
    for (int p = -1; p <= mc_npes(); p++) {
        int g = shmem_team_translate_pe(SHMEM_TEAM_WORLD, p, t->h), e = p >= 0 && p < mc_npes() ? idx(t->m, t->n, p) : -1;
        mc_assert(g == e, "%s: world PE %d translates to member %d, expected %d", w, p, g, e);
    }
    for (int k = 0; k < nt; k++) { /* to all other live teams */
        if (!T[k].live || idx(T[k].m, T[k].n, me) < 0) continue;
        for (int i = 0; i < t->n; i++) {
            int g = shmem_team_translate_pe(t->h, i, T[k].h), e = idx(T[k].m, T[k].n, t->m[i]);
            mc_assert(g == e, "%s: member %d translates to %d in another team, expected %d", w, i, g, e);
        }
    }
    mc_assert(shmem_team_translate_pe(t->h, 0, SHMEM_TEAM_INVALID) == -1 && shmem_team_translate_pe(SHMEM_TEAM_INVALID, 0, t->h) == -1, "%s: translation with the invalid team", w);
    shmem_team_config_t c = { .num_contexts = 77 };
    mc_assert(shmem_team_get_config(t->h, SHMEM_TEAM_NUM_CONTEXTS, &c) == 0 && c.num_contexts == t->nc, "%s: configuration has %d contexts, expected %d", w, c.num_contexts, t->nc);
}
static void coll_team(tm_t *t, int salt, const char *w)
{
    int me = mc_pe(), r = idx(t->m, t->n, me);
    if (r < 0) return;
    long sum = 0;
    for (int i = 0; i < t->n; i++) sum += 100 * salt + (1 << t->m[i]);
    tsrc[0] = 100 * salt + (1 << me);
    for (int i = 0; i < 16; i++) tdst[i] = -1;
    mc_assert(shmem_team_sync(t->h) == 0, "%s: team_sync failed", w);
    mc_assert(shmem_long_sum_reduce(t->h, tdst, tsrc, 1) == 0, "%s: reduce failed", w);
    mc_assert(tdst[0] == sum, "%s: sum over the team is %ld, expected %ld", w, tdst[0], sum);
    mc_assert(shmem_team_sync(t->h) == 0, "%s: team_sync failed", w);
    tsrc[0] = 1000 * salt + me;
    mc_assert(shmem_long_fcollect(t->h, tdst + 4, tsrc, 1) == 0, "%s: fcollect failed", w);
    for (int i = 0; i < t->n; i++) mc_assert(tdst[4 + i] == 1000 * salt + t->m[i], "%s: fcollect element %d is %ld, expected %d", w, i, tdst[4 + i], 1000 * salt + t->m[i]);
    mc_assert(shmem_team_sync(t->h) == 0, "%s: team_sync failed", w);
    tsrc[1] = 5000 * salt + me;
    mc_assert(shmem_long_broadcast(t->h, tdst + 12, tsrc + 1, 1, t->n - 1) == 0, "%s: broadcast failed", w);
    mc_assert(tdst[12] == 5000 * salt + t->m[t->n - 1], "%s: broadcast gave %ld", w, tdst[12]);
    mc_assert(shmem_team_sync(t->h) == 0, "%s: team_sync failed", w);
}
static void all_colls(int salt)
{
    for (int k = 0; k < nt; k++) if (T[k].live) coll_team(&T[k], salt + k, "collective on a team");
}
MC_SCEN(team_seq)
{
    mc_leakcheck();
    shmem_init();
    int me = shmem_my_pe(), n = shmem_n_pes(), depth = mc_arg("depth", 2), full = mc_arg("full", 1), sum = 0;
    model_world(mc_arg("ppn", 9));
    for (int k = 0; k < nt; k++) check_team(&T[k], "predefined team");
    mc_assert(shmem_team_my_pe(SHMEM_TEAM_INVALID) == -1 && shmem_team_n_pes(SHMEM_TEAM_INVALID) == -1, "queries of the invalid team");
    for (int s = 0; s < depth; s++) {
        int par = mc_choose_all(nt); /* the same team for the PEs that share it; PEs outside use their own view */
        tm_t *p = &T[par];
        int in = p->live && p->h != SHMEM_TEAM_INVALID;
        int what = par < 2 ? mc_choose_all(2) : mc_choose_all(3);
        shmem_team_config_t cfg = { .num_contexts = 3 + s };
        if (what == 0) {
            int st = mc_choose_all(n + 2) - 1, sd = 1 + mc_choose_all(3), sz = 1 + mc_choose_all(n), cf = full ? mc_choose_all(3) : s % 3;
            shmem_team_t h = (shmem_team_t) &T;
            sum = (sum * 7 + par) * 97 + st * 20 + sd * 5 + sz;
            int pn = p->n, ok = in && st >= 0 && st < pn && st + sd * (sz - 1) < pn;
            if (p->live || !in) {
                int rc = shmem_team_split_strided(in ? p->h : SHMEM_TEAM_INVALID, st, sd, sz, cf ? &cfg : NULL, cf == 2 ? SHMEM_TEAM_NUM_CONTEXTS : 0, &h);
                mc_assert((rc == 0) == ok, "split_strided(%d, %d, %d) of a team of %d PEs returned %d", st, sd, sz, pn, rc);
            }
            tm_t *t = &T[nt++];
            *t = (tm_t) { h, 0, { 0 }, cf == 2 ? 3 + s : 0, 1 };
            if (ok) for (int i = 0; i < sz; i++) t->m[t->n++] = p->m[st + sd * i];
            if (t->n == 0) mc_assert(h == SHMEM_TEAM_INVALID, "a failed split returned a team");
            check_team(t, "split_strided");
        } else if (what == 1) {
            int xr = 1 + mc_choose_all(n + 1), cf = full ? mc_choose_all(3) : s % 3;
            sum = (sum * 7 + par) * 97 + 90 + xr;
            shmem_team_t hx = (shmem_team_t) &T, hy = (shmem_team_t) &T;
            shmem_team_config_t cy = { .num_contexts = 9 };
            int rc = shmem_team_split_2d(in ? p->h : SHMEM_TEAM_INVALID, xr, cf ? &cfg : NULL, cf == 2 ? SHMEM_TEAM_NUM_CONTEXTS : 0, &hx, cf ? &cy : NULL, cf ? SHMEM_TEAM_NUM_CONTEXTS : 0, &hy);
            mc_assert((rc == 0) == in, "split_2d returned %d", rc);
            tm_t *tx = &T[nt], *ty = &T[nt + 1];
            nt += 2;
            *tx = (tm_t) { hx, 0, { 0 }, cf == 2 ? 3 + s : 0, 1 };
            *ty = (tm_t) { hy, 0, { 0 }, cf ? 9 : 0, 1 };
            if (in) {
                int r = idx(p->m, p->n, me);
                for (int i = 0; i < p->n; i++) {
                    if (i / xr == r / xr) tx->m[tx->n++] = p->m[i];
                    if (i % xr == r % xr) ty->m[ty->n++] = p->m[i];
                }
            }
            check_team(tx, "split_2d x axis");
            check_team(ty, "split_2d y axis");
        } else {
            sum = (sum * 7 + par) * 97 + 96;
            if (p->live) shmem_team_destroy(p->h);
            p->live = 0;
            p->h = SHMEM_TEAM_INVALID;
            p->n = 0;
        }
        for (int k = 0; k < nt; k++) if (T[k].live) check_team(&T[k], "team");
        all_colls(10 * (s + 1));
    }
    mc_obs(0, sum);
    shmem_barrier_all();
    /* destroying the predefined or invalid teams has no effect */
    shmem_team_destroy(SHMEM_TEAM_INVALID);
    for (int k = 0; k < nt; k++) if (T[k].live) { if (k >= 2) { shmem_team_destroy(T[k].h); T[k].live = 0; } }
    for (int k = 0; k < 2; k++) check_team(&T[k], "predefined team at the end");
    all_colls(77);
    shmem_finalize();
}
/* interleavings of two consecutive splits and collectives of the resulting teams */
MC_SCEN(team_explore)
{
    shmem_init();
    int n = shmem_n_pes(), me = shmem_my_pe();
    model_world(6);
    int kind = mc_choose_all(3), dest = mc_choose_all(2);
    shmem_team_t a = SHMEM_TEAM_INVALID, b = SHMEM_TEAM_INVALID;
    mc_begin();
    if (kind == 0) { shmem_team_split_strided(SHMEM_TEAM_WORLD, 0, 1, n - 1, NULL, 0, &a); shmem_team_split_strided(SHMEM_TEAM_WORLD, 1, 1, n - 1, NULL, 0, &b);
        T[2] = (tm_t) { a, n - 1, { 0, 1, 2, 3, 4 }, 0, 1 }; T[3] = (tm_t) { b, n - 1, { 1, 2, 3 }, 0, 1 }; }
    if (kind == 1) { shmem_team_split_2d(SHMEM_TEAM_WORLD, 2, NULL, 0, &a, NULL, 0, &b);
        T[2] = (tm_t) { a, 0, { 0 }, 0, 1 }; T[3] = (tm_t) { b, 0, { 0 }, 0, 1 };
        for (int i = 0; i < n; i++) { if (i / 2 == me / 2) T[2].m[T[2].n++] = i; if (i % 2 == me % 2) T[3].m[T[3].n++] = i; } }
    if (kind == 2) { /* nested, only the members of a call the second split */
        shmem_team_split_strided(SHMEM_TEAM_WORLD, 0, n > 2 ? 2 : 1, 2, NULL, 0, &a);
        T[2] = (tm_t) { a, 2, { 0, n > 2 ? 2 : 1 }, 0, 1 };
        if (a != SHMEM_TEAM_INVALID) shmem_team_split_strided(a, 1, 1, 1, NULL, 0, &b);
        T[3] = (tm_t) { b, 1, { n > 2 ? 2 : 1 }, 0, 1 }; }
    nt = 4;
    for (int k = 2; k < 4; k++) {
        tm_t *t = &T[k];
        int r = idx(t->m, t->n, me);
        mc_assert((r >= 0) == (t->h != SHMEM_TEAM_INVALID), "membership of PE %d", me);
        if (r < 0) continue;
        long *d = tdst + 4 * k;
        tsrc[k] = 10 * k + me;
        shmem_long_fcollect(t->h, d, &tsrc[k], 1);
        for (int i = 0; i < t->n; i++) mc_assert(d[i] == 10 * k + t->m[i], "fcollect on team %d: element %d is %ld", k, i, d[i]);
        if (dest) shmem_team_destroy(t->h);
    }
    shmem_barrier_all();
    mc_end();
    mc_obs(0, kind * 2 + dest);
    shmem_finalize();
}
