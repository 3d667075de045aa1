// Simulated MPI: every nondeterminism the standard allows (RMA order and time, message delay, buffering) is explicit.
#include "core.h"
#include <complex>
#include <algorithm>
#include <functional>
#include <cmath>

#define C extern "C"
std::map<std::string, long> unsupported;
static const int primsize[MC_NPRIM] = { 0, 1, 1, 1, 1, 2, 2, 4, 4, 8, 8, 8, 8, 4, 8, 16, 1, 2, 4, 8, 1, 2, 4, 8, 8, 16, 32, 8, 1, 4, 8, 8, 1 };
static const char *primname[MC_NPRIM] = { "NULL", "BYTE", "CHAR", "SCHAR", "UCHAR", "SHORT", "USHORT", "INT", "UNSIGNED", "LONG", "ULONG", "LLONG", "ULLONG", "FLOAT", "DOUBLE", "LDOUBLE", "INT8", "INT16", "INT32", "INT64", "UINT8", "UINT16", "UINT32", "UINT64", "FCPLX", "DCPLX", "LDCPLX", "AINT", "BOOL", "WCHAR", "COUNT", "OFFSET", "PACKED" };

static int nlive() { int n = 0; for (int t = 0; t < MAXT; t++) n += ps[cur]->co[t].wk != W_DEAD; return n; }
// with several threads in a PE, other threads may run before every call that is visible to them
static void mt_point(const char *f)
{
    static const char *const local[] = { "MPI_Type_", "MPI_Comm_rank", "MPI_Comm_size", "MPI_Group_", "MPI_Test", "MPI_Wait", "MPI_Iprobe", "MPI_Probe", "MPI_Info_", "MPI_Get_", "MPI_Query_thread", "MPI_Error_", "MPI_Request_get_status", "MPI_Win_sync" };
    for (auto l : local) if (!strncmp(f, l, strlen(l))) return;
    if (nlive() > 1) sched_ready();
}
static void need_init(const char *f)
{
    if (cur < 0) internal("MPI call outside a PE: %s", f);
    if (!ps[cur]->inited) viol("MPI misuse: %s before MPI_Init", f);
    if (ps[cur]->finalized) viol("MPI misuse: %s after MPI_Finalize", f);
    if (cfg.yield_all && gs->explore) sched_ready();
    else if (gs->explore) mt_point(f);
}
#define ENTER() do { need_init(__func__); TR("PE%d.%d %s", cur, curT, __func__); } while (0)

// ------------------------------------------------------------------ datatypes
static Type &ty(int pe, int t)
{
    int i = t - MC_TYPE_BASE;
    if (i < 0 || i >= ps[pe]->tyhi || ps[pe]->ty[i].kind == T_FREE) viol("MPI misuse: invalid datatype handle %d", t);
    return ps[pe]->ty[i];
}
static int64_t tsize(int pe, int t)
{
    if (t > 0 && t < MC_NPRIM) return primsize[t];
    return ty(pe, t).size;
}
static void textent(int pe, int t, int64_t *lb, int64_t *ext)
{
    if (t > 0 && t < MC_NPRIM) { *lb = 0; *ext = primsize[t]; return; }
    Type &y = ty(pe, t);
    *lb = y.lb; *ext = y.ext;
}
static int tprim(int pe, int t)
{
    while (t >= MC_TYPE_BASE) t = ty(pe, t).old;
    return t;
}
template <class F> static void walk(int pe, int t, int64_t cnt, uint64_t base, F &&f)
{
    if (cnt <= 0) return;
    if (t > 0 && t < MC_NPRIM) { f(base, (size_t) (cnt * primsize[t])); return; }
    Type &y = ty(pe, t);
    for (int64_t i = 0; i < cnt; i++) {
        uint64_t b = base + i * y.ext;
        switch (y.kind) {
        case T_CONTIG: walk(pe, y.old, y.count, b, f); break;
        case T_HVEC: for (int j = 0; j < y.count; j++) walk(pe, y.old, y.bl, b + j * y.stride, f); break;
        default: walk(pe, y.old, 1, b, f); break;
        }
    }
}
static std::string pack(int pe, uint64_t buf, int64_t cnt, int t)
{
    std::string s;
    walk(pe, t, cnt, buf, [&](uint64_t a, size_t n) {
        if (!n) return;
        if (!mem_ok(pe, a, n)) viol("MPI reads %zu bytes at invalid (unallocated or freed) memory of PE %d", n, pe);
        s.append((const char *) a, n);
    });
    return s;
}
static void unpack(int pe, uint64_t buf, int64_t cnt, int t, const char *d, size_t len, int tpe = -1)
{
    // types are looked up in pe's table, memory belongs to tpe
    if (tpe < 0) tpe = pe;
    size_t o = 0;
    dirty_mem[tpe] = true;
    walk(pe, t, cnt, buf, [&](uint64_t a, size_t n) {
        if (o >= len) return;
        n = std::min(n, len - o);
        if (!mem_ok(tpe, a, n)) viol("MPI writes %zu bytes at invalid (unallocated or freed) memory of PE %d", n, tpe);
        touch(tpe, a);
        memcpy((void *) a, d + o, n);
        o += n;
    });
}
static void fillbuf(int pe, uint64_t buf, int64_t cnt, int t, int v)
{
    dirty_mem[pe] = true;
    walk(pe, t, cnt, buf, [&](uint64_t a, size_t n) {
        if (!n) return;
        if (!mem_ok(pe, a, n)) viol("MPI result buffer is invalid memory of PE %d", pe);
        touch(pe, a);
        memset((void *) a, v, n);
    });
}
static void tcheck(int t, const char *f)
{
    if (t > 0 && t < MC_NPRIM) return;
    Type &y = ty(cur, t);
    if (y.freed) viol("MPI misuse: %s uses a freed datatype", f);
    if (!y.committed) viol("MPI misuse: %s uses an uncommitted datatype", f);
}
static void tref(int pe, int t) { if (t >= MC_TYPE_BASE) { P(pe); ty(pe, t).refs++; } }
static void tunref(int pe, int t)
{
    if (t < MC_TYPE_BASE) return;
    P(pe);
    Type &y = ty(pe, t);
    if (--y.refs == 0 && y.freed) { int o = y.old; memset(&y, 0, sizeof y); PS &s = P(pe); while (s.tyhi && s.ty[s.tyhi - 1].kind == T_FREE) s.tyhi--; tunref(pe, o); }
}
static int tnew(Type y, int old)
{
    PS &s = P(cur);
    for (int i = 0; i < MAXTYPE; i++)
        if (i >= s.tyhi || s.ty[i].kind == T_FREE) {
            if (i >= s.tyhi) s.tyhi = i + 1;
            y.old = old;
            s.ty[i] = y;
            tref(cur, old);
            return MC_TYPE_BASE + i;
        }
    viol("MPI datatypes leak: more than %d live derived datatypes", MAXTYPE);
}
C int MPI_Type_size(MPI_Datatype t, int *s) { *s = tsize(cur, t); return 0; }
C int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *e) { int64_t l, x; textent(cur, t, &l, &x); *lb = l; *e = x; return 0; }
C int MPI_Type_get_true_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *e)
{
    int64_t lo = INT64_MAX, hi = INT64_MIN;
    walk(cur, t, 1, 0, [&](uint64_t a, size_t n) { if (n) { lo = std::min(lo, (int64_t) a); hi = std::max(hi, (int64_t) (a + n)); } });
    if (lo > hi) lo = hi = 0;
    *lb = lo; *e = hi - lo;
    return 0;
}
static Type mk(int kind, int old, int count, int bl, int64_t stride)
{
    Type y;
    memset(&y, 0, sizeof y);
    int64_t lb, ext;
    textent(cur, old, &lb, &ext);
    y.kind = kind; y.count = count; y.bl = bl; y.stride = stride;
    int64_t so = tsize(cur, old);
    y.size = so * count * bl;
    if (count <= 0 || bl <= 0) { y.lb = 0; y.ext = 0; y.size = 0; return y; }
    int64_t lo = lb, hi = lb + ext * bl;
    int64_t l2 = lo + stride * (count - 1), h2 = hi + stride * (count - 1);
    y.lb = std::min(lo, l2);
    y.ext = std::max(hi, h2) - y.lb;
    return y;
}
C int MPI_Type_contiguous(int n, MPI_Datatype o, MPI_Datatype *t)
{
    ENTER();
    int64_t lb, ext; textent(cur, o, &lb, &ext);
    Type y = mk(T_CONTIG, o, n, 1, ext);
    *t = tnew(y, o); return 0;
}
C int MPI_Type_create_hvector(int n, int bl, MPI_Aint st, MPI_Datatype o, MPI_Datatype *t)
{
    ENTER();
    Type y = mk(T_HVEC, o, n, bl, st);
    *t = tnew(y, o); return 0;
}
C int MPI_Type_vector(int n, int bl, int st, MPI_Datatype o, MPI_Datatype *t)
{
    ENTER();
    int64_t lb, ext; textent(cur, o, &lb, &ext);
    Type y = mk(T_HVEC, o, n, bl, st * ext);
    *t = tnew(y, o); return 0;
}
C int MPI_Type_create_resized(MPI_Datatype o, MPI_Aint lb, MPI_Aint e, MPI_Datatype *t)
{
    ENTER();
    Type y = mk(T_RESIZED, o, 1, 1, 0);
    y.lb = lb; y.ext = e;
    *t = tnew(y, o); return 0;
}
C int MPI_Type_dup(MPI_Datatype o, MPI_Datatype *t)
{
    ENTER();
    Type y = mk(T_DUP, o, 1, 1, 0);
    y.committed = 1;
    *t = tnew(y, o); return 0;
}
C int MPI_Type_commit(MPI_Datatype *t) { ENTER(); if (*t >= MC_TYPE_BASE) { P(cur); ty(cur, *t).committed = 1; } return 0; }
C int MPI_Type_free(MPI_Datatype *t)
{
    ENTER();
    if (*t < MC_TYPE_BASE) viol("MPI misuse: MPI_Type_free of a predefined or null datatype");
    P(cur);
    Type &y = ty(cur, *t);
    if (y.freed) viol("MPI misuse: datatype freed twice");
    y.freed = 1; y.refs++;
    tunref(cur, *t);
    *t = MPI_DATATYPE_NULL;
    return 0;
}

// ------------------------------------------------------------------ comms and groups
static Comm &cm(int c)
{
    if (c <= 0 || c >= MAXCOMM || !gs->comm[c].used) viol("MPI misuse: invalid communicator %d", c);
    return gs->comm[c];
}
static int crank(const Comm &c, int world) { for (int i = 0; i < c.n; i++) if (c.r[i] == world) return i; return -1; }
static Comm &cmy(int c, const char *f)
{
    Comm &m = cm(c);
    int r = crank(m, cur);
    if (r < 0 || (m.freed >> cur & 1)) viol("MPI misuse: %s on a communicator (%d) this PE is not part of or has freed", f, c);
    return m;
}
static int comm_new(int n, const int8_t *r)
{
    GS &g = G();
    for (int i = 3; i < cfg.max_comm; i++)
        if (!g.comm[i].used) {
            memset(&g.comm[i], 0, sizeof(Comm));
            g.comm[i].used = 1; g.comm[i].n = n;
            for (int k = 0; k < n; k++) g.comm[i].r[k] = r[k];
            return i;
        }
    viol("MPI communicators leak: more than %d live communicators", cfg.max_comm - 3);
}
static Grp &gr(int g)
{
    static Grp empty;
    if (g == MPI_GROUP_EMPTY) { memset(&empty, 0, sizeof empty); return empty; }
    int i = g - 2;
    if (i < 0 || i >= MAXGRP || !ps[cur]->grp[i].used) viol("MPI misuse: invalid group handle %d", g);
    return ps[cur]->grp[i];
}
static int grp_new(int n, const int8_t *r)
{
    PS &s = P(cur);
    for (int i = 0; i < MAXGRP; i++)
        if (!s.grp[i].used) {
            memset(&s.grp[i], 0, sizeof(Grp));
            s.grp[i].used = 1; s.grp[i].n = n;
            for (int k = 0; k < n; k++) s.grp[i].r[k] = r[k];
            return i + 2;
        }
    viol("MPI groups leak: more than %d live groups", MAXGRP);
}
C int MPI_Comm_size(MPI_Comm c, int *s) { ENTER(); *s = c == MPI_COMM_SELF ? 1 : cmy(c, __func__).n; return 0; }
C int MPI_Comm_rank(MPI_Comm c, int *r) { ENTER(); *r = c == MPI_COMM_SELF ? 0 : crank(cmy(c, __func__), cur); return 0; }
C int MPI_Comm_group(MPI_Comm c, MPI_Group *g) { ENTER(); Comm &m = cmy(c, __func__); *g = grp_new(m.n, m.r); return 0; }
C int MPI_Comm_free(MPI_Comm *c)
{
    ENTER();
    if (*c <= 2) viol("MPI misuse: MPI_Comm_free of a null or predefined communicator");
    cmy(*c, __func__);
    Comm &m = G().comm[*c];
    m.freed |= 1 << cur;
    if (__builtin_popcount(m.freed) == m.n) {
        // messages in flight on a freed communicator are a leak
        for (int p = 0; p < NPE; p++) for (int i = 0; i < ps[p]->nmsg; i++) if (ps[p]->msg[i].comm == *c) viol("communicator freed with an undelivered or unreceived message (PE %d -> PE %d)", ps[p]->msg[i].src, p);
        memset(&m, 0, sizeof m);
    }
    *c = MPI_COMM_NULL;
    return 0;
}
C int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *res)
{
    ENTER();
    if (a == b) { *res = MPI_IDENT; return 0; }
    Comm &x = cmy(a, __func__), &y = cmy(b, __func__);
    *res = MPI_UNEQUAL;
    if (x.n == y.n) {
        if (!memcmp(x.r, y.r, x.n)) *res = MPI_CONGRUENT;
        else { std::set<int> s(x.r, x.r + x.n), t(y.r, y.r + y.n); if (s == t) *res = MPI_SIMILAR; }
    }
    return 0;
}
C int MPI_Comm_get_attr(MPI_Comm c, int k, void *v, int *flag)
{
    ENTER();
    *flag = 0;
    if (k == MPI_TAG_UB) {
        int *p = (int *) &P(cur).attr_comm[0];
        *p = cfg.tag_ub;
        *(int **) v = p; *flag = 1;
    } else if (k == MPI_WTIME_IS_GLOBAL) {
        int *p = (int *) &P(cur).attr_comm[1];
        *p = 1; *(int **) v = p; *flag = 1;
    }
    return 0;
}
C int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
C int MPI_Comm_set_name(MPI_Comm, const char *) { return 0; }
C int MPI_Comm_set_info(MPI_Comm, MPI_Info) { return 0; }
C int MPI_Group_size(MPI_Group g, int *n) { *n = gr(g).n; return 0; }
C int MPI_Group_rank(MPI_Group g, int *r) { Grp &x = gr(g); *r = MPI_UNDEFINED; for (int i = 0; i < x.n; i++) if (x.r[i] == cur) *r = i; return 0; }
C int MPI_Group_incl(MPI_Group g, int n, const int *rk, MPI_Group *o)
{
    ENTER();
    Grp x = gr(g);
    int8_t r[MAXPE]; int seen = 0;
    if (n > x.n || n < 0) viol("MPI misuse: MPI_Group_incl with %d of %d ranks", n, x.n);
    for (int i = 0; i < n; i++) {
        if (rk[i] < 0 || rk[i] >= x.n || (seen >> rk[i] & 1)) viol("MPI misuse: MPI_Group_incl invalid or duplicate rank %d (group size %d)", rk[i], x.n);
        seen |= 1 << rk[i];
        r[i] = x.r[rk[i]];
    }
    *o = n ? grp_new(n, r) : MPI_GROUP_EMPTY;
    return 0;
}
C int MPI_Group_excl(MPI_Group g, int n, const int *rk, MPI_Group *o)
{
    ENTER();
    Grp x = gr(g);
    int8_t r[MAXPE]; int m = 0;
    for (int i = 0; i < x.n; i++) { bool ex = false; for (int k = 0; k < n; k++) ex |= rk[k] == i; if (!ex) r[m++] = x.r[i]; }
    *o = m ? grp_new(m, r) : MPI_GROUP_EMPTY;
    return 0;
}
C int MPI_Group_range_incl(MPI_Group g, int n, int rg[][3], MPI_Group *o)
{
    ENTER();
    Grp x = gr(g);
    int8_t r[MAXPE]; int m = 0, seen = 0;
    for (int k = 0; k < n; k++) {
        if (rg[k][2] == 0) viol("MPI misuse: MPI_Group_range_incl with stride 0");
        for (int i = rg[k][0]; rg[k][2] > 0 ? i <= rg[k][1] : i >= rg[k][1]; i += rg[k][2]) {
            if (i < 0 || i >= x.n || (seen >> i & 1)) viol("MPI misuse: MPI_Group_range_incl invalid or duplicate rank %d (group size %d)", i, x.n);
            seen |= 1 << i;
            r[m++] = x.r[i];
        }
    }
    *o = m ? grp_new(m, r) : MPI_GROUP_EMPTY;
    return 0;
}
C int MPI_Group_translate_ranks(MPI_Group a, int n, const int *ra, MPI_Group b, int *rb)
{
    Grp x = gr(a), y = gr(b);
    for (int i = 0; i < n; i++) {
        rb[i] = MPI_UNDEFINED;
        if (ra[i] == MPI_PROC_NULL) { rb[i] = MPI_PROC_NULL; continue; }
        if (ra[i] < 0 || ra[i] >= x.n) viol("MPI misuse: MPI_Group_translate_ranks invalid rank %d (group size %d)", ra[i], x.n);
        for (int k = 0; k < y.n; k++) if (y.r[k] == x.r[ra[i]]) rb[i] = k;
    }
    return 0;
}
C int MPI_Group_compare(MPI_Group a, MPI_Group b, int *res)
{
    Grp x = gr(a), y = gr(b);
    *res = MPI_UNEQUAL;
    if (x.n == y.n) {
        if (!memcmp(x.r, y.r, x.n)) *res = MPI_IDENT;
        else { std::set<int> s(x.r, x.r + x.n), t(y.r, y.r + y.n); if (s == t) *res = MPI_SIMILAR; }
    }
    return 0;
}
C int MPI_Group_free(MPI_Group *g)
{
    ENTER();
    if (*g == MPI_GROUP_EMPTY) { *g = MPI_GROUP_NULL; return 0; }
    gr(*g);
    memset(&P(cur).grp[*g - 2], 0, sizeof(Grp));
    *g = MPI_GROUP_NULL;
    return 0;
}

// ------------------------------------------------------------------ constructors (blocking collectives creating objects)
static void cons_create(Cons &c);
static int cons_join(int kind, int comm, int n, const int8_t *r, int tag, int64_t a, int64_t b, int64_t cc, int win, int order)
{
    GS &g = G();
    int slot = -1, me_i = -1;
    for (int i = 0; i < n; i++) if (r[i] == cur) me_i = i;
    if (me_i < 0) viol("MPI misuse: PE %d calls a collective constructor it is not part of", cur);
    for (int i = 0; i < MAXCONS; i++) {
        Cons &c = g.cons[i];
        if (c.used && c.kind == kind && c.comm == comm && c.tag == tag && c.win == win && c.n == n && !memcmp(c.r, r, n) && !(c.arrived >> me_i & 1)) { slot = i; break; }
    }
    if (slot < 0) {
        for (int i = 0; i < MAXCONS; i++) if (!g.cons[i].used) { slot = i; break; }
        if (slot < 0) internal("too many constructors in flight");
        Cons &c = g.cons[slot];
        memset(&c, 0, sizeof c);
        c.used = 1; c.kind = kind; c.comm = comm; c.n = n; c.tag = tag; c.win = win; c.order = order;
        memcpy(c.r, r, n);
    }
    Cons &c = g.cons[slot];
    c.arrived |= 1 << me_i;
    c.a[me_i] = a; c.b[me_i] = b; c.c[me_i] = cc;
    if (order != c.order) viol("MPI misuse: window created with different info on different PEs");
    if (__builtin_popcount(c.arrived) == n) cons_create(c);
    Co &k = P(cur).co[curT];
    k.wk = W_CONS; k.a = slot;
    co_yield_();
    Cons &d = G().cons[slot];
    int res = d.result[me_i];
    d.picked |= 1 << me_i;
    if (__builtin_popcount(d.picked) == n) memset(&d, 0, sizeof d);
    return res;
}
static int cons_comm(int kind, int comm, int tag, int64_t a, int64_t b)
{
    Comm m = cm(comm);
    return cons_join(kind, comm, m.n, m.r, tag, a, b, 0, 0, 0);
}
C int MPI_Comm_dup(MPI_Comm c, MPI_Comm *o)
{
    ENTER(); cmy(c, __func__);
    *o = cons_comm(C_DUP, c, 0, 0, 0); return 0;
}
C int MPI_Comm_dup_with_info(MPI_Comm c, MPI_Info, MPI_Comm *o) { return MPI_Comm_dup(c, o); }
C int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *o)
{
    ENTER(); cmy(c, __func__);
    if (color < 0 && color != MPI_UNDEFINED) viol("MPI misuse: MPI_Comm_split with negative color");
    *o = cons_comm(C_SPLIT, c, 0, color, key); return 0;
}
C int MPI_Comm_split_type(MPI_Comm c, int t, int key, MPI_Info, MPI_Comm *o)
{
    ENTER(); cmy(c, __func__);
    int color = t == MPI_UNDEFINED ? MPI_UNDEFINED : cfg.ppn ? cur / cfg.ppn : 0;
    *o = cons_comm(C_SPLITTYPE, c, 0, color, key); return 0;
}
C int MPI_Comm_create_group(MPI_Comm c, MPI_Group g, int tag, MPI_Comm *o)
{
    ENTER(); cmy(c, __func__);
    Grp x = gr(g);
    if (tag < 0 || tag > cfg.tag_ub) viol("MPI misuse: MPI_Comm_create_group tag %d out of range", tag);
    bool in = false;
    for (int i = 0; i < x.n; i++) { in |= x.r[i] == cur; if (crank(cm(c), x.r[i]) < 0) viol("MPI misuse: MPI_Comm_create_group with a non-member"); }
    if (!in) { *o = MPI_COMM_NULL; return 0; }
    *o = cons_join(C_CREATEGROUP, c, x.n, x.r, tag, 0, 0, 0, 0, 0);
    return 0;
}
C int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *o)
{
    ENTER(); cmy(c, __func__);
    Grp x = gr(g);
    int mask = 0, ord = 0;
    for (int i = 0; i < x.n; i++) { mask |= 1 << x.r[i]; ord = ord * 8 + x.r[i] + 1; }
    *o = cons_comm(C_CREATE, c, 0, mask, ord); return 0;
}

// ------------------------------------------------------------------ infos
static int info_slot(int h)
{
    if (h < 2 || h >= MAXINFO + 2 || !ps[cur]->info[h - 2].used) viol("MPI misuse: invalid info handle %d", h);
    return h - 2;
}
static int info_new(const std::string &s)
{
    PS &p = P(cur);
    for (int i = 0; i < MAXINFO; i++)
        if (!p.info[i].used) { p.info[i].used = 1; p.info[i].blob = blob_new(cur, s.data(), s.size()); return i + 2; }
    viol("MPI infos leak: more than %d live infos", MAXINFO);
}
static std::string info_str(int pe, int slot) { int b = ps[pe]->info[slot].blob; return std::string(blob_ptr(pe, b), blob_len(pe, b)); }
static std::string info_lookup(const std::string &s, const std::string &k)
{
    size_t p = 0;
    std::string r;
    while (p < s.size()) {
        size_t e = s.find('\n', p), q = s.find('=', p);
        if (s.substr(p, q - p) == k) r = s.substr(q + 1, e - q - 1);
        p = e + 1;
    }
    return r;
}
C int MPI_Info_create(MPI_Info *i) { ENTER(); *i = info_new(""); return 0; }
C int MPI_Info_dup(MPI_Info a, MPI_Info *b) { ENTER(); *b = info_new(info_str(cur, info_slot(a))); return 0; }
C int MPI_Info_set(MPI_Info i, const char *k, const char *v)
{
    ENTER();
    int s = info_slot(i);
    TR("    info %s=%s", k, v);
    std::string x = info_str(cur, s) + k + "=" + v + "\n";
    PS &p = P(cur);
    blob_del(cur, p.info[s].blob);
    p.info[s].blob = blob_new(cur, x.data(), x.size());
    return 0;
}
C int MPI_Info_get(MPI_Info i, const char *k, int n, char *v, int *flag)
{
    ENTER();
    std::string r = info_lookup(info_str(cur, info_slot(i)), k);
    *flag = !r.empty();
    if (*flag) { size_t m = std::min((size_t) n, r.size()); memcpy(v, r.data(), m); v[m] = 0; }
    return 0;
}
C int MPI_Info_delete(MPI_Info, const char *) { return 0; }
C int MPI_Info_free(MPI_Info *i)
{
    ENTER();
    int s = info_slot(*i);
    blob_del(cur, P(cur).info[s].blob);
    memset(&P(cur).info[s], 0, sizeof(Info));
    *i = MPI_INFO_NULL;
    return 0;
}

// ------------------------------------------------------------------ init / finalize
C int MPI_Init_thread(int *, char ***, int req, int *prov)
{
    PS &s = P(cur);
    if (s.inited) viol("MPI misuse: MPI initialised twice");
    s.inited = 1;
    s.level = std::min(req, cfg.maxlevel);
    *prov = s.level;
    return 0;
}
C int MPI_Init(int *a, char ***b) { int p; return MPI_Init_thread(a, b, MPI_THREAD_SINGLE, &p); }
C int MPI_Initialized(int *f) { *f = ps[cur]->inited; return 0; }
C int MPI_Finalized(int *f) { *f = ps[cur]->finalized; return 0; }
C int MPI_Query_thread(int *p) { ENTER(); *p = ps[cur]->level; return 0; }
C int MPI_Is_thread_main(int *p) { *p = curT == 0; return 0; }
C int MPI_Finalize(void)
{
    ENTER();
    P(cur).finalized = 2;
    Co &k = P(cur).co[curT];
    k.wk = W_FIN;
    co_yield_();
    P(cur).finalized = 1;
    return 0;
}
C int MPI_Abort(MPI_Comm, int)
{
    if (ps[cur]->expect_abort) { P(cur).exited = 2; Co &k = P(cur).co[curT]; k.wk = W_DEAD; co_yield_(); }
    viol("the library aborted the program (MPI_Abort)");
}
C int MPI_Get_processor_name(char *s, int *l) { strcpy(s, "mc"); *l = 2; return 0; }
C int MPI_Get_version(int *a, int *b) { *a = 3; *b = 1; return 0; }
C int MPI_Error_string(int, char *s, int *l) { strcpy(s, "err"); *l = 3; return 0; }
C int MPI_T_init_thread(int, int *p) { *p = MPI_THREAD_MULTIPLE; return 0; }
C int MPI_T_finalize(void) { return 0; }
C int MPI_T_cvar_get_index(const char *, int *) { return MPI_T_ERR_INVALID_NAME; }
C int MPI_T_cvar_handle_alloc(int, void *, MPI_T_cvar_handle *, int *) { return MPI_ERR_OTHER; }
C int MPI_T_cvar_handle_free(MPI_T_cvar_handle *) { return 0; }
C int MPI_T_cvar_read(MPI_T_cvar_handle, void *) { return MPI_ERR_OTHER; }
C int MPI_T_cvar_write(MPI_T_cvar_handle, const void *) { return MPI_ERR_OTHER; }
C double MPI_Wtime(void) { return 1.0; }
C MPI_Aint MPI_Aint_add(MPI_Aint a, MPI_Aint b) { return a + b; }
C MPI_Aint MPI_Aint_diff(MPI_Aint a, MPI_Aint b) { return a - b; }
C int MPI_Get_address(const void *p, MPI_Aint *a) { *a = (MPI_Aint) p; return 0; }
C int MPI_Alloc_mem(MPI_Aint n, MPI_Info, void *p) { ENTER(); *(void **) p = arena_alloc(cur, n, 64, 2); return 0; }
C int MPI_Free_mem(void *p) { ENTER(); arena_free(cur, p); return 0; }
C int MPI_Pcontrol(const int, ...) { return 0; }

// ------------------------------------------------------------------ operations
template <class T> static T arith(int op, T t, T o)
{
    switch (op) {
    case MPI_SUM: return t + o;
    case MPI_PROD: return t * o;
    default: viol("MPI misuse: reduction operation %d not defined for the datatype", op);
    }
}
template <class T> static T fl(int op, T t, T o)
{
    switch (op) {
    case MPI_MAX: return t > o ? t : o;
    case MPI_MIN: return t < o ? t : o;
    default: return arith(op, t, o);
    }
}
template <class T> static T it(int op, T t, T o)
{
    typedef unsigned long long U;
    switch (op) {
    case MPI_SUM: return (T) ((U) t + (U) o);
    case MPI_PROD: return (T) ((U) t * (U) o);
    case MPI_BAND: return t & o;
    case MPI_BOR: return t | o;
    case MPI_BXOR: return t ^ o;
    case MPI_LAND: return t && o;
    case MPI_LOR: return t || o;
    case MPI_LXOR: return !t != !o;
    default: return fl(op, t, o);
    }
}
// byte only supports bitwise
static unsigned char by(int op, unsigned char t, unsigned char o)
{
    switch (op) {
    case MPI_BAND: return t & o; case MPI_BOR: return t | o; case MPI_BXOR: return t ^ o;
    default: viol("MPI misuse: operation %d not defined for MPI_BYTE", op);
    }
}
#define OPT(T, fn) { T t_, o_; memcpy(&t_, t, sizeof(T)); memcpy(&o_, o, sizeof(T)); t_ = fn(op, t_, o_); memcpy(t, &t_, sizeof(T)); break; }
static void op1(int op, int prim, char *t, const char *o)
{
    if (op == MPI_REPLACE) { memcpy(t, o, primsize[prim]); return; }
    if (op == MPI_NO_OP) return;
    switch (prim) {
    case MPI_BYTE: OPT(unsigned char, by)
    case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_INT8_T: OPT(signed char, it)
    case MPI_UNSIGNED_CHAR: case MPI_UINT8_T: OPT(unsigned char, it)
    case MPI_SHORT: case MPI_INT16_T: OPT(short, it)
    case MPI_UNSIGNED_SHORT: case MPI_UINT16_T: OPT(unsigned short, it)
    case MPI_INT: case MPI_INT32_T: OPT(int, it)
    case MPI_UNSIGNED: case MPI_UINT32_T: OPT(unsigned, it)
    case MPI_LONG: case MPI_LONG_LONG: case MPI_INT64_T: case MPI_AINT: case MPI_COUNT: case MPI_OFFSET: OPT(long, it)
    case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T: OPT(unsigned long, it)
    case MPI_FLOAT: OPT(float, fl)
    case MPI_DOUBLE: OPT(double, fl)
    case MPI_LONG_DOUBLE: { long double a, b; memcpy(&a, t, 16); memcpy(&b, o, 16); a = fl(op, a, b); memcpy(t, &a, 10); memset(t + 10, 0, 6); break; }
    case MPI_C_COMPLEX: OPT(std::complex<float>, arith)
    case MPI_C_DOUBLE_COMPLEX: OPT(std::complex<double>, arith)
    case MPI_C_LONG_DOUBLE_COMPLEX: { std::complex<long double> a, b; memcpy((void *) &a, t, 32); memcpy((void *) &b, o, 32); a = arith(op, a, b); memcpy(t, (void *) &a, 32); break; }
    default: viol("MPI misuse: reduction on datatype %s is not defined", primname[prim]);
    }
}
C int MPI_Reduce_local(const void *in, void *io, int n, MPI_Datatype t, MPI_Op op)
{
    ENTER();
    int p = tprim(cur, t);
    for (int i = 0; i < n; i++) op1(op, p, (char *) io + i * primsize[p], (const char *) in + i * primsize[p]);
    return 0;
}

// ------------------------------------------------------------------ windows
static Win &wn(int w, const char *f)
{
    if (w <= 0 || w >= MAXWIN || !gs->win[w].used) viol("MPI misuse: %s on invalid window %d", f, w);
    if (crank(gs->comm[gs->win[w].comm], cur) < 0 || (gs->win[w].freed >> cur & 1)) viol("MPI misuse: %s on a window this PE is not part of", f);
    return gs->win[w];
}
static int parse_order(int info)
{
    if (info == MPI_INFO_NULL) return 15;
    int o = info_lookup(info_str(cur, info_slot(info)), "accumulate_ops") == "same_op" ? 16 : 0;
    std::string wh = info_lookup(info_str(cur, info_slot(info)), "which_accumulate_ops");
    if (!wh.empty()) {
        static const struct { const char *n; int b; } tab[] = { { "max", 8 + MPI_MAX }, { "min", 8 + MPI_MIN }, { "sum", 8 + MPI_SUM }, { "prod", 8 + MPI_PROD }, { "band", 8 + MPI_BAND }, { "bor", 8 + MPI_BOR },
            { "bxor", 8 + MPI_BXOR }, { "land", 8 + MPI_LAND }, { "lor", 8 + MPI_LOR }, { "replace", 8 + MPI_REPLACE }, { "no_op", 8 + MPI_NO_OP }, { "cswap", 30 } };
        o |= 32;
        wh = "," + wh + ",";
        for (auto &t : tab) if (wh.find(std::string(",") + t.n + ",") != wh.npos) o |= 1 << t.b;
    }
    std::string s = info_lookup(info_str(cur, info_slot(info)), "accumulate_ordering");
    if (s.empty()) return o | 15;
    if (s == "none") return o;
    if (s.find("rar") != s.npos) o |= 1;
    if (s.find("war") != s.npos) o |= 2;
    if (s.find("raw") != s.npos) o |= 4;
    if (s.find("waw") != s.npos) o |= 8;
    return o;
}
static void cons_create(Cons &c)
{
    switch (c.kind) {
    case C_DUP: case C_CREATEGROUP: {
        int h = comm_new(c.n, c.r);
        for (int i = 0; i < c.n; i++) c.result[i] = h;
        break;
    }
    case C_CREATE: {
        int8_t r[MAXPE]; int n = 0;
        for (int64_t o = c.b[0]; o; o /= 8) n++;
        int64_t o = c.b[0];
        for (int k = n - 1; k >= 0; k--) { r[k] = o % 8 - 1; o /= 8; }
        int h = n ? comm_new(n, r) : 0;
        for (int i = 0; i < c.n; i++) c.result[i] = (c.a[i] >> c.r[i] & 1) ? h : MPI_COMM_NULL;
        break;
    }
    case C_SPLIT: case C_SPLITTYPE: {
        std::set<int64_t> colors;
        for (int i = 0; i < c.n; i++) if (c.a[i] != MPI_UNDEFINED) colors.insert(c.a[i]); else c.result[i] = MPI_COMM_NULL;
        for (int64_t col : colors) {
            std::vector<std::pair<int64_t, int>> v;
            for (int i = 0; i < c.n; i++) if (c.a[i] == col) v.push_back({ c.b[i], i });
            std::sort(v.begin(), v.end());
            int8_t r[MAXPE]; int n = 0;
            for (auto &x : v) r[n++] = c.r[x.second];
            int h = comm_new(n, r);
            for (auto &x : v) c.result[x.second] = h;
        }
        break;
    }
    case C_WINCREATE: case C_WINALLOC: case C_WINDYN: {
        GS &g = G();
        int h = 0;
        for (int i = 1; i < MAXWIN; i++) if (!g.win[i].used) { h = i; break; }
        if (!h) viol("MPI windows leak: more than %d live windows", MAXWIN - 1);
        Win &w = g.win[h];
        memset(&w, 0, sizeof w);
        w.used = 1;
        w.comm = comm_new(c.n, c.r);
        w.dynamic = c.kind == C_WINDYN; w.order = c.order;
        for (int i = 0; i < c.n; i++) {
            if (!w.dynamic) {
                w.base[c.r[i]] = c.a[i]; w.size[c.r[i]] = c.b[i]; w.disp[c.r[i]] = c.c[i];
                if (c.kind == C_WINALLOC) w.abase[c.r[i]] = c.a[i];
                if (c.c[i] <= 0) viol("MPI misuse: window with displacement unit %ld", (long) c.c[i]);
            } else w.disp[c.r[i]] = 1;
            c.result[i] = h;
        }
        break;
    }
    case C_WINFREE: {
        Win &w = G().win[c.win];
        memset(&G().comm[w.comm], 0, sizeof(Comm));
        for (int i = 0; i < c.n; i++) if (w.abase[c.r[i]]) { dirty_mem[c.r[i]] = true; arena_free(c.r[i], (void *) w.abase[c.r[i]]); }
        memset(&w, 0, sizeof w);
        break;
    }
    }
}
static int win_cons(int kind, int comm, uint64_t base, int64_t size, int disp, int info)
{
    Comm m = cmy(comm, "window creation");
    if (size < 0) viol("MPI misuse: window of negative size");
    return cons_join(kind, comm, m.n, m.r, 0, base, size, disp, 0, parse_order(info));
}
C int MPI_Win_create(void *b, MPI_Aint n, int d, MPI_Info i, MPI_Comm c, MPI_Win *w)
{
    ENTER();
    if (n > 0 && !mem_ok(cur, (uint64_t) b, n)) viol("MPI misuse: MPI_Win_create on memory [%p,+%ld) that is not allocated", b, (long) n);
    *w = win_cons(C_WINCREATE, c, (uint64_t) b, n, d, i); return 0;
}
C int MPI_Win_allocate(MPI_Aint n, int d, MPI_Info i, MPI_Comm c, void *b, MPI_Win *w)
{
    ENTER();
    void *p = arena_alloc(cur, n, 4096, 3);
    *w = win_cons(C_WINALLOC, c, (uint64_t) p, n, d, i);
    *(void **) b = p;
    return 0;
}
C int MPI_Win_create_dynamic(MPI_Info i, MPI_Comm c, MPI_Win *w) { ENTER(); *w = win_cons(C_WINDYN, c, 0, 0, 1, i); return 0; }
C int MPI_Win_attach(MPI_Win w, void *b, MPI_Aint n)
{
    ENTER();
    wn(w, __func__);
    Win &x = G().win[w];
    if (!x.dynamic) viol("MPI misuse: MPI_Win_attach on a non-dynamic window");
    for (int i = 0; i < MAXREG; i++) if (x.reg[cur][i].size && (uint64_t) b < x.reg[cur][i].base + x.reg[cur][i].size && x.reg[cur][i].base < (uint64_t) b + n) viol("MPI misuse: overlapping memory attached to a window");
    for (int i = 0; i < MAXREG; i++) if (!x.reg[cur][i].base) { x.reg[cur][i].base = (uint64_t) b; x.reg[cur][i].size = n; return 0; }
    internal("too many attached regions");
}
C int MPI_Win_detach(MPI_Win w, const void *b)
{
    ENTER();
    wn(w, __func__);
    Win &x = G().win[w];
    for (int i = 0; i < MAXREG; i++) if (x.reg[cur][i].base == (uint64_t) b) { x.reg[cur][i].base = x.reg[cur][i].size = 0; return 0; }
    viol("MPI misuse: MPI_Win_detach of memory that is not attached");
}
C int MPI_Win_free(MPI_Win *w)
{
    ENTER();
    Win &x = wn(*w, __func__);
    if (x.locked >> cur & 1) viol("MPI misuse: MPI_Win_free inside an access epoch");
    Comm m = gs->comm[x.comm];
    cons_join(C_WINFREE, 0, m.n, m.r, 0, 0, 0, 0, *w, 0);
    *w = MPI_WIN_NULL;
    return 0;
}
C int MPI_Win_lock_all(int, MPI_Win w) { ENTER(); wn(w, __func__); Win &x = G().win[w]; if (x.locked >> cur & 1) viol("MPI misuse: window locked twice"); x.locked |= 1 << cur; return 0; }
static void do_flush(int w, int target, bool local);
C int MPI_Win_unlock_all(MPI_Win w) { ENTER(); wn(w, __func__); do_flush(w, -1, false); Win &x = G().win[w]; if (!(x.locked >> cur & 1)) viol("MPI misuse: MPI_Win_unlock_all without lock_all"); x.locked &= ~(1 << cur); return 0; }
C int MPI_Win_sync(MPI_Win w) { ENTER(); wn(w, __func__); if (++P(cur).co[curT].winsync > 3) { P(cur).co[curT].winsync = 0; sched_ready(); } return 0; }
C int MPI_Win_get_group(MPI_Win w, MPI_Group *g) { ENTER(); Comm &m = gs->comm[wn(w, __func__).comm]; *g = grp_new(m.n, m.r); return 0; }
C int MPI_Win_get_attr(MPI_Win w, int k, void *v, int *flag)
{
    ENTER();
    Win &x = wn(w, __func__);
    PS &s = P(cur);
    *flag = 1;
    switch (k) {
    case MPI_WIN_BASE: *(void **) v = (void *) x.base[cur]; break;
    case MPI_WIN_SIZE: s.attr[w][0] = x.size[cur]; *(int64_t **) v = &s.attr[w][0]; break;
    case MPI_WIN_DISP_UNIT: *(int *) &s.attr[w][1] = x.disp[cur]; *(int64_t **) v = &s.attr[w][1]; break;
    case MPI_WIN_MODEL: *(int *) &s.attr[w][2] = MPI_WIN_UNIFIED; *(int64_t **) v = &s.attr[w][2]; break;
    default: *flag = 0;
    }
    return 0;
}
C int MPI_Win_set_info(MPI_Win, MPI_Info) { return 0; }
C int MPI_Win_set_errhandler(MPI_Win, MPI_Errhandler) { return 0; }

static Win &epoch(int w, int target, const char *f)
{
    Win &x = wn(w, f);
    if (!(x.locked >> cur & 1)) viol("MPI misuse: %s outside an access epoch", f);
    Comm &m = gs->comm[x.comm];
    if (target < 0 || target >= m.n) viol("MPI misuse: %s with target rank %d (window has %d)", f, target, m.n);
    return x;
}
static bool in_region(const Win &x, int pe, uint64_t a, size_t n)
{
    if (!x.dynamic) return a >= x.base[pe] && a + n <= x.base[pe] + x.size[pe];
    for (int i = 0; i < MAXREG; i++) if (x.reg[pe][i].size && a >= x.reg[pe][i].base && a + n <= x.reg[pe][i].base + x.reg[pe][i].size) return true;
    return false;
}
static void op_issue(const char *f, int kind, int mop, int w, int target, int64_t disp, uint64_t o, int oc, int ot, uint64_t r, int rc, int rt, int tc, int tt, uint64_t cmp)
{
    Win &x = epoch(w, target, f);
    int tpe = gs->comm[x.comm].r[target];
    if (oc < 0 || rc < 0 || tc < 0) viol("MPI misuse: %s with a negative count", f);
    if (oc || (kind != O_GACC && kind != O_GET)) tcheck(ot ? ot : rt, f);
    tcheck(tt, f);
    int64_t ts = tsize(cur, tt) * tc;
    if (kind == O_PUT || kind == O_ACC || (kind == O_GACC && mop != MPI_NO_OP)) {
        if (tsize(cur, ot) * oc != ts) viol("MPI misuse: %s origin transfers %ld bytes but target %ld", f, (long) (tsize(cur, ot) * oc), (long) ts);
    }
    if (kind == O_GET || kind == O_GACC) {
        tcheck(rt, f);
        if (tsize(cur, rt) * rc != ts) viol("MPI misuse: %s result holds %ld bytes but target %ld", f, (long) (tsize(cur, rt) * rc), (long) ts);
    }
    if (ts == 0) return;
    uint64_t ta = x.dynamic ? (uint64_t) disp : x.base[tpe] + disp * x.disp[tpe];
    walk(cur, tt, tc, ta, [&](uint64_t a, size_t n) {
        if (n && !in_region(x, tpe, a, n)) viol("RMA outside the window: %s accesses offset %ld+%zu of PE %d's window %d (size %ld)", f, (long) (a - x.base[tpe]), n, tpe, w, (long) x.size[tpe]);
    });
    int prim = tprim(cur, tt);
    if (kind == O_FOP || kind == O_CAS || kind == O_ACC || kind == O_GACC) {
        if (kind == O_CAS && !(prim >= MPI_BYTE && prim <= MPI_UNSIGNED_LONG_LONG) && !(prim >= MPI_INT8_T && prim <= MPI_UINT64_T) && prim != MPI_AINT && prim != MPI_C_BOOL)
            viol("MPI misuse: MPI_Compare_and_swap on %s", primname[prim]);
        if (ta % std::min(primsize[prim], 8)) viol("atomic access at a misaligned address");
        char t[32] = { 0 }, o2[32] = { 0 };
        if (kind != O_CAS) { t[0] = o2[0] = 1; op1(mop, prim, t, o2); } // checks that the operation is defined
    }
    if ((cfg.strict & 2) && kind >= O_ACC && (x.order & 32) && !(x.order >> (kind == O_CAS ? 30 : 8 + mop) & 1))
        viol("MPI accumulate operation with an operator that the window hint which_accumulate_ops rules out (operator %d%s, PE %d to PE %d)", mop, kind == O_CAS ? ", compare and swap" : "", cur, tpe);
    if ((cfg.strict & 1) && kind >= O_ACC)
        for (int q = 0; q < NPE; q++) for (int i = 0; i < ps[q]->nop; i++) {
            const Op &e = ps[q]->op[i];
            if (e.kind < O_ACC || e.applied || e.target != tpe || e.win != w) continue;
            bool ov = false;
            walk(q, e.ttype, e.tcnt, e.taddr, [&](uint64_t a, size_t n) { walk(cur, tt, tc, ta, [&](uint64_t b, size_t m) { if (a < b + m && b < a + n) ov = true; }); });
            if (!ov) continue;
            auto code = [](int k, int o) { return k == O_CAS ? -1 : o; };
            int c1 = code(e.kind, e.mop), c2 = code(kind, mop);
            if (c1 != c2 && ((x.order & 16) || (c1 != MPI_NO_OP && c2 != MPI_NO_OP)))
                viol("concurrent MPI accumulate operations with different operators on one location of PE %d: MPI guarantees atomicity only for the same operator%s (window hint accumulate_ops)", tpe, x.order & 16 ? "" : " or no-op");
        }
    PS &s = P(cur);
    if (s.nop >= MAXOP) internal("too many pending RMA operations");
    Op &p = s.op[s.nop++];
    memset(&p, 0, sizeof p);
    p.kind = kind; p.mop = mop; p.win = w; p.target = tpe; p.oaddr = o; p.ocnt = oc; p.otype = ot; p.raddr = r; p.rcnt = rc; p.rtype = rt;
    p.tcnt = tc; p.ttype = tt; p.caddr = cmp; p.taddr = ta; p.sblob = p.rblob = -1; p.req = -1;
    tref(cur, ot); tref(cur, rt); tref(cur, tt);
    if (kind != O_PUT && kind != O_ACC) fillbuf(cur, r, rc, rt, 0xEE); // the result is undefined until completion
    TR("    -> PE%d addr %lx, %ld bytes, op %d prim %s", tpe, (long) (ta - x.base[tpe]), (long) ts, mop, primname[prim]);
}
C int MPI_Put(const void *o, int oc, MPI_Datatype ot, int t, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Win w)
{ ENTER(); op_issue(__func__, O_PUT, MPI_REPLACE, w, t, d, (uint64_t) o, oc, ot, 0, 0, 0, tc, tt, 0); return 0; }
C int MPI_Get(void *o, int oc, MPI_Datatype ot, int t, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Win w)
{ ENTER(); op_issue(__func__, O_GET, MPI_NO_OP, w, t, d, 0, 0, 0, (uint64_t) o, oc, ot, tc, tt, 0); return 0; }
C int MPI_Accumulate(const void *o, int oc, MPI_Datatype ot, int t, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Op op, MPI_Win w)
{ ENTER(); op_issue(__func__, O_ACC, op, w, t, d, (uint64_t) o, oc, ot, 0, 0, 0, tc, tt, 0); return 0; }
C int MPI_Get_accumulate(const void *o, int oc, MPI_Datatype ot, void *r, int rc, MPI_Datatype rt, int t, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Op op, MPI_Win w)
{
    ENTER();
    if (op == MPI_NO_OP) { o = 0; oc = 0; ot = 0; }
    op_issue(__func__, O_GACC, op, w, t, d, (uint64_t) o, oc, ot, (uint64_t) r, rc, rt, tc, tt, 0); return 0;
}
C int MPI_Fetch_and_op(const void *o, void *r, MPI_Datatype ty_, int t, MPI_Aint d, MPI_Op op, MPI_Win w)
{
    ENTER();
    if (ty_ >= MC_TYPE_BASE) viol("MPI misuse: MPI_Fetch_and_op on a derived datatype");
    op_issue(__func__, O_FOP, op, w, t, d, (uint64_t) o, 1, ty_, (uint64_t) r, 1, ty_, 1, ty_, 0); return 0;
}
C int MPI_Compare_and_swap(const void *o, const void *c, void *r, MPI_Datatype ty_, int t, MPI_Aint d, MPI_Win w)
{
    ENTER();
    if (ty_ >= MC_TYPE_BASE) viol("MPI misuse: MPI_Compare_and_swap on a derived datatype");
    op_issue(__func__, O_CAS, MPI_REPLACE, w, t, d, (uint64_t) o, 1, ty_, (uint64_t) r, 1, ty_, 1, ty_, (uint64_t) c); return 0;
}
static bool is_acc(const Op &p) { return p.kind >= O_ACC; }
static bool acc_before(int origin, const Op &e, const Op &l)
{
    if (!is_acc(e) || !is_acc(l) || e.applied || e.win != l.win || e.target != l.target) return false;
    int ord = gs->win[e.win].order & 15;
    if (!ord) return false;
    bool eR = e.kind != O_ACC, eW = e.mop != MPI_NO_OP, lR = l.kind != O_ACC, lW = l.mop != MPI_NO_OP;
    if (!((eR && lR && (ord & 1)) || (eR && lW && (ord & 2)) || (eW && lR && (ord & 4)) || (eW && lW && (ord & 8)))) return false;
    bool overlap = false;
    walk(origin, e.ttype, e.tcnt, e.taddr, [&](uint64_t a, size_t n) {
        walk(origin, l.ttype, l.tcnt, l.taddr, [&](uint64_t b, size_t m) { if (a < b + m && b < a + n) overlap = true; });
    });
    return overlap;
}
static void op_remove(int pe, int i)
{
    PS &s = P(pe);
    Op p = s.op[i];
    memmove(&s.op[i], &s.op[i + 1], sizeof(Op) * (s.nop - i - 1));
    memset(&s.op[--s.nop], 0, sizeof(Op));
    tunref(pe, p.otype); tunref(pe, p.rtype); tunref(pe, p.ttype);
    if (p.sblob >= 0) blob_del(pe, p.sblob);
    if (p.rblob >= 0) blob_del(pe, p.rblob);
}
static bool ops_overlap(int pa, const Op &a, int pb, const Op &b)
{
    if (a.target != b.target) return false;
    bool o = false;
    walk(pa, a.ttype, a.tcnt, a.taddr, [&](uint64_t x, size_t n) { walk(pb, b.ttype, b.tcnt, b.taddr, [&](uint64_t y, size_t m) { if (x < y + m && y < x + n) o = true; }); });
    return o;
}
// --split-acc: an accumulate reads, and writes back later; other accumulates are excluded meanwhile, puts and plain stores are not
static bool half_other(int pe, int i, int *qe, int *k)
{
    const Op &p = ps[pe]->op[i];
    if (!cfg.split || !is_acc(p)) return false;
    for (int q = 0; q < NPE; q++) for (int j = 0; j < ps[q]->nop; j++)
        if ((q != pe || j != i) && ps[q]->op[j].half && ops_overlap(pe, p, q, ps[q]->op[j])) { *qe = q; *k = j; return true; }
    return false;
}
static void op_apply(int pe, int i, bool first_half = false)
{
    if (cfg.split) for (int q, k; half_other(pe, i, &q, &k);) { int n0 = ps[q]->nop; op_apply(q, k); if (q == pe && k < i) i -= n0 - ps[q]->nop; }
    PS &s = P(pe);
    Op &p = s.op[i];
    const Win &x = gs->win[p.win];
    if (!x.used) viol("RMA operation of PE %d still pending on a freed window", pe);
    int prim = tprim(pe, p.ttype);
    walk(pe, p.ttype, p.tcnt, p.taddr, [&](uint64_t a, size_t n) {
        if (n && !in_region(x, p.target, a, n)) viol("RMA on memory that was detached or is outside the window of PE %d", p.target);
        if (n && !mem_ok(p.target, a, n)) viol("RMA on window memory that is no longer allocated on PE %d", p.target);
    });
    TR("ENV apply op of PE%d -> PE%d off %ld", pe, p.target, (long) (p.taddr - x.base[p.target]));
    std::string res;
    if (p.half || (cfg.split && gs->explore && first_half && is_acc(p) && p.mop != MPI_NO_OP)) {
        if (!p.half) { // the read
            std::string old;
            walk(pe, p.ttype, p.tcnt, p.taddr, [&](uint64_t a, size_t n) { old.append((char *) a, n); });
            p.rblob = blob_new(pe, old.data(), old.size());
            p.half = 1;
            return;
        }
        std::string old(blob_ptr(pe, p.rblob), blob_len(pe, p.rblob)), v = old, src;
        if (p.sblob >= 0) src.assign(blob_ptr(pe, p.sblob), blob_len(pe, p.sblob));
        else src = pack(pe, p.oaddr, p.ocnt, p.otype);
        bool wr = true;
        if (p.kind == O_CAS) { wr = pack(pe, p.caddr, 1, p.ttype) == old; v = src; }
        else { size_t es = primsize[prim]; for (size_t o = 0; o + es <= v.size(); o += es) op1(p.mop, prim, &v[o], src.data() + o); }
        if (wr) unpack(pe, p.taddr, p.tcnt, p.ttype, v.data(), v.size(), p.target);
        p.half = 0; p.applied = 1;
        if (p.kind == O_ACC) op_remove(pe, i);
        else if (p.sblob >= 0) { int b = p.sblob; p.sblob = -1; blob_del(pe, b); }
        return;
    }
    if (p.kind != O_PUT && p.kind != O_ACC) walk(pe, p.ttype, p.tcnt, p.taddr, [&](uint64_t a, size_t n) { res.append((char *) a, n); });
    if (p.kind != O_GET && p.mop != MPI_NO_OP) {
        std::string src;
        if (p.sblob >= 0) src.assign(blob_ptr(pe, p.sblob), blob_len(pe, p.sblob));
        else src = pack(pe, p.oaddr, p.ocnt, p.otype);
        if (p.kind == O_CAS) {
            std::string c = pack(pe, p.caddr, 1, p.ttype);
            if (c == res) unpack(pe, p.taddr, p.tcnt, p.ttype, src.data(), src.size(), p.target);
        } else if (p.kind == O_PUT) unpack(pe, p.taddr, p.tcnt, p.ttype, src.data(), src.size(), p.target);
        else {
            size_t o = 0, es = primsize[prim];
            dirty_mem[p.target] = true;
            walk(pe, p.ttype, p.tcnt, p.taddr, [&](uint64_t a, size_t n) {
                touch(p.target, a); for (size_t k = 0; k + es <= n; k += es, o += es) op1(p.mop, prim, (char *) a + k, src.data() + o);
            });
        }
    }
    p.applied = 1;
    if (p.kind == O_PUT || p.kind == O_ACC) op_remove(pe, i);
    else {
        p.rblob = blob_new(pe, res.data(), res.size());
        if (p.sblob >= 0) { int b = p.sblob; p.sblob = -1; blob_del(pe, b); }
    }
}
bool env_op_enabled(int pe, int i)
{
    const Op &p = ps[pe]->op[i];
    if (p.applied) return false;
    for (int k = 0; k < i; k++) if (acc_before(pe, ps[pe]->op[k], p)) return false;
    int q, k;
    return !half_other(pe, i, &q, &k);
}
bool env_op_skip(int pe, int i)
{
    // a sole pending read-only operation of a PE that waits in the flush completing it
    const PS &s = *ps[pe];
    const Op &p = s.op[i];
    if (s.nop != 1 || !(p.kind == O_GET || p.mop == MPI_NO_OP)) return false;
    for (int t = 0; t < MAXT; t++) if (s.co[t].wk == W_READY && s.co[t].b == 77 && s.co[t].a == p.win) return true;
    return false;
}
void env_op_apply(int pe, int i) { op_apply(pe, i, true); }
static void apply_ordered(int pe, int i)
{
    // apply op i after everything that must precede it; indices of ops before i may shift
    for (;;) {
        bool again = false;
        for (int k = 0; k < i; k++)
            if (acc_before(pe, ps[pe]->op[k], ps[pe]->op[i])) {
                int n0 = ps[pe]->nop;
                apply_ordered(pe, k);
                i -= n0 - ps[pe]->nop;
                again = true;
                break;
            }
        if (!again) break;
    }
    op_apply(pe, i);
}
static void do_flush(int w, int target, bool local)
{
    int tpe = target < 0 ? -1 : gs->comm[gs->win[w].comm].r[target];
    auto match = [&](const Op &p) { return p.win == w && (tpe < 0 || p.target == tpe); };
    bool any = false;
    for (int i = 0; i < ps[cur]->nop; i++) {
        Op &p = ps[cur]->op[i];
        if (!match(p)) continue;
        if (local && (p.kind == O_PUT || p.kind == O_ACC)) {
            if (p.sblob < 0) { std::string s = pack(cur, p.oaddr, p.ocnt, p.otype); P(cur).op[i].sblob = blob_new(cur, s.data(), s.size()); }
        } else any = true;
    }
    if (!any) return;
    Co &k = P(cur).co[curT];
    k.wk = W_READY; k.b = 77; k.a = w;
    co_yield_();
    P(cur).co[curT].b = 0; P(cur).co[curT].a = 0;
    for (bool more = true; more;) {
        more = false;
        for (int i = 0; i < ps[cur]->nop; i++) {
            Op &p = ps[cur]->op[i];
            if (!match(p)) continue;
            if (local && (p.kind == O_PUT || p.kind == O_ACC)) continue;
            if (!p.applied) { apply_ordered(cur, i); more = true; break; }
            std::string r(blob_ptr(cur, p.rblob), blob_len(cur, p.rblob));
            unpack(cur, p.raddr, p.rcnt, p.rtype, r.data(), r.size());
            op_remove(cur, i);
            more = true;
            break;
        }
    }
}
static void fl_(const char *f, int w, int t, bool local)
{
    Win &x = wn(w, f);
    if (!(x.locked >> cur & 1)) viol("MPI misuse: %s outside an access epoch", f);
    if (t >= 0) epoch(w, t, f);
    do_flush(w, t, local);
}
C int MPI_Win_flush(int t, MPI_Win w) { ENTER(); fl_(__func__, w, t, false); return 0; }
C int MPI_Win_flush_all(MPI_Win w) { ENTER(); fl_(__func__, w, -1, false); return 0; }
C int MPI_Win_flush_local(int t, MPI_Win w) { ENTER(); fl_(__func__, w, t, true); return 0; }
C int MPI_Win_flush_local_all(MPI_Win w) { ENTER(); fl_(__func__, w, -1, true); return 0; }

// ------------------------------------------------------------------ point to point
static Req &rq(int r)
{
    int i = r - 1;
    if (i < 0 || i >= MAXREQ || ps[cur]->req[i].kind == R_FREE || ps[cur]->req[i].released) viol("MPI misuse: invalid request handle %d", r);
    return P(cur).req[i];
}
static int req_new(int kind)
{
    PS &s = P(cur);
    for (int i = 0; i < MAXREQ; i++)
        if (s.req[i].kind == R_FREE) { memset(&s.req[i], 0, sizeof(Req)); s.req[i].kind = kind; s.req[i].inst = -1; return i + 1; }
    viol("MPI requests leak: more than %d live requests", MAXREQ);
}
static void req_free(int pe, int r)
{
    PS &s = P(pe);
    Req q = s.req[r - 1];
    if (q.kind == R_SEND) {
        // a send whose payload is still in the user's buffer is captured now
        for (int d = 0; d < NPE; d++)
            for (int i = 0; i < ps[d]->nmsg; i++) {
                Msg &m = ps[d]->msg[i];
                if (m.src == pe && m.sreq == r) {
                    P(d).msg[i].sreq = 0;
                    if (m.blob < 0 && m.len) { std::string p = pack(pe, q.buf, q.cnt, q.type); P(d).msg[i].blob = blob_new(d, p.data(), p.size()); }
                }
            }
    }
    if (q.kind == R_RECV && !q.done) for (int i = 0; i < MAXREQ; i++) if (s.req[i].kind == R_RECV && !s.req[i].done && s.req[i].ord > q.ord) s.req[i].ord--;
    memset(&s.req[r - 1], 0, sizeof(Req));
    if (q.kind == R_SEND || q.kind == R_RECV) tunref(pe, q.type);
}
static bool msg_match(const Msg &m, int comm, int src, int tag) { return m.comm == comm && (src == MPI_ANY_SOURCE || m.src == src) && (tag == MPI_ANY_TAG || m.tag == tag); }
static void do_match(int pe, int ri, int mi)
{
    PS &s = P(pe);
    Req &q = s.req[ri];
    Msg m = s.msg[mi];
    std::string pl;
    if (m.blob >= 0) pl.assign(blob_ptr(pe, m.blob), blob_len(pe, m.blob));
    else if (m.len) { Req &sq = ps[m.src]->req[m.sreq - 1]; pl = pack(m.src, sq.buf, sq.cnt, sq.type); }
    int64_t cap = tsize(pe, q.type) * q.cnt;
    if ((int64_t) pl.size() > cap) viol("MPI message truncated: PE %d receives %zu bytes from PE %d (tag %d) into a buffer of %ld bytes", pe, pl.size(), m.src, m.tag, (long) cap);
    unpack(pe, q.buf, q.cnt, q.type, pl.data(), pl.size());
    int ord = q.ord;
    q.done = 1; q.ord = 0;
    q.st_src = crank(gs->comm[m.comm], m.src); q.st_tag = m.tag; q.st_cnt = pl.size();
    if (ord) for (int i = 0; i < MAXREQ; i++) if (s.req[i].kind == R_RECV && !s.req[i].done && s.req[i].ord > ord) s.req[i].ord--;
    if (m.sreq > 0 && m.sync) P(m.src).req[m.sreq - 1].done = 1;
    if (m.sreq > 0 && ps[m.src]->req[m.sreq - 1].released) { P(m.src).req[m.sreq - 1].done = 1; int r = m.sreq; m.sreq = s.msg[mi].sreq = 0; req_free(m.src, r); }
    if (m.blob >= 0) blob_del(pe, m.blob);
    memmove(&s.msg[mi], &s.msg[mi + 1], sizeof(Msg) * (s.nmsg - mi - 1));
    memset(&s.msg[--s.nmsg], 0, sizeof(Msg));
    TR("ENV match PE%d <- PE%d tag %d", pe, m.src, m.tag);
    if (q.released) req_free(pe, ri + 1);
}
bool env_msg_enabled(int d, int i)
{
    const PS &s = *ps[d];
    if (s.msg[i].state != 1) return false;
    for (int k = 0; k < i; k++) if (s.msg[k].state == 1 && s.msg[k].comm == s.msg[i].comm && s.msg[k].src == s.msg[i].src) return false;
    return true;
}
void env_msg_deliver(int d, int i)
{
    PS &s = P(d);
    Msg &m = s.msg[i];
    TR("ENV deliver PE%d -> PE%d comm %d tag %d", m.src, d, m.comm, m.tag);
    int best = -1;
    for (int r = 0; r < MAXREQ; r++) {
        Req &q = s.req[r];
        if (q.kind == R_RECV && !q.done && msg_match(m, q.comm, q.src, q.tag) && (best < 0 || q.ord < s.req[best].ord)) best = r;
    }
    if (best >= 0) do_match(d, best, i);
    else m.state = 2;
}
static int send_(const char *f, const void *b, int n, int t, int dst, int tag, int comm, bool sync, bool blocking)
{
    Comm &c = cmy(comm, f);
    if (dst < 0 || dst >= c.n) viol("MPI misuse: %s to rank %d (communicator has %d)", f, dst, c.n);
    if (tag < 0 || tag > cfg.tag_ub) viol("MPI misuse: %s with tag %d outside 0..MPI_TAG_UB (%d)", f, tag, cfg.tag_ub);
    if (n < 0) viol("MPI misuse: %s with a negative count", f);
    tcheck(t, f);
    int d = c.r[dst];
    PS &s = P(d);
    if (s.nmsg >= MAXMSG) internal("too many messages in flight");
    int r = req_new(R_SEND);
    Req &q = P(cur).req[r - 1];
    q.buf = (uint64_t) b; q.cnt = n; q.type = t; tref(cur, t);
    q.done = !sync;
    Msg &m = s.msg[s.nmsg++];
    memset(&m, 0, sizeof m);
    m.state = 1; m.sync = sync; m.comm = comm; m.src = cur; m.tag = tag; m.len = tsize(cur, t) * n; m.blob = -1; m.sreq = r;
    if (m.len) { std::string p = pack(cur, q.buf, n, t); (void) p; } // buffer must be readable
    TR("    -> PE%d tag %d comm %d len %d", d, tag, comm, m.len);
    return r;
}
static int recv_(const char *f, void *b, int n, int t, int src, int tag, int comm)
{
    Comm &c = cmy(comm, f);
    if (src != MPI_ANY_SOURCE && (src < 0 || src >= c.n)) viol("MPI misuse: %s from rank %d (communicator has %d)", f, src, c.n);
    if (tag != MPI_ANY_TAG && (tag < 0 || tag > cfg.tag_ub)) viol("MPI misuse: %s with tag %d outside 0..MPI_TAG_UB (%d)", f, tag, cfg.tag_ub);
    if (n < 0) viol("MPI misuse: %s with a negative count", f);
    tcheck(t, f);
    int r = req_new(R_RECV);
    PS &s = P(cur);
    Req &q = s.req[r - 1];
    q.comm = comm; q.src = src == MPI_ANY_SOURCE ? src : c.r[src]; q.tag = tag; q.buf = (uint64_t) b; q.cnt = n; q.type = t; tref(cur, t);
    TR("    <- src %d tag %d comm %d", src, tag, comm);
    for (int i = 0; i < s.nmsg; i++)
        if (s.msg[i].state == 2 && msg_match(s.msg[i], comm, q.src, tag)) { do_match(cur, r - 1, i); return r; }
    int mx = 0;
    for (int i = 0; i < MAXREQ; i++) if (s.req[i].kind == R_RECV && !s.req[i].done && i != r - 1) mx = std::max(mx, s.req[i].ord);
    q.ord = mx + 1;
    return r;
}

// ------------------------------------------------------------------ collectives
static bool inst_ready(const Inst &in, int m)
{
    const Comm &c = gs->comm[in.comm];
    int all = (1 << c.n) - 1;
    switch (in.kind) {
    case I_BCAST: case I_SCATTER: return m == in.root || (in.arrived >> in.root & 1);
    case I_REDUCE: case I_GATHER: return m != in.root || in.arrived == all;
    case I_SCAN: case I_EXSCAN: return (in.arrived & ((2 << m) - 1)) == ((2 << m) - 1);
    default: return in.arrived == all;
    }
}
struct CollArg {
    int kind, comm, root = 0, mop = 0;
    const void *sb = 0; int sc = 0, st = 0; const int *scs = 0, *sds = 0;
    void *rb = 0; int rc = 0, rt = 0; const int *rcs = 0, *rds = 0;
    bool nb = false;
};
static int coll_start(const char *f, const CollArg &a)
{
    Comm c = cmy(a.comm, f);
    int m = crank(c, cur);
    if (a.root < 0 || a.root >= c.n) viol("MPI misuse: %s with root %d (communicator has %d)", f, a.root, c.n);
    if (a.sc < 0 || a.rc < 0) viol("MPI misuse: %s with a negative count", f);
    if (a.st) tcheck(a.st, f);
    if (a.rt) tcheck(a.rt, f);
    GS &g = G();
    int slot = -1, mx = 0;
    for (int i = 0; i < MAXINST; i++) {
        Inst &x = g.inst[i];
        if (!x.used || x.comm != a.comm) continue;
        mx = std::max(mx, x.ord);
        if (!(x.arrived >> m & 1) && (slot < 0 || x.ord < g.inst[slot].ord)) slot = i;
    }
    int prim = a.mop ? tprim(cur, a.kind == I_BCAST ? a.rt : a.st ? a.st : a.rt) : 0;
    if (slot < 0) {
        for (int i = 0; i < MAXINST; i++) if (!g.inst[i].used) { slot = i; break; }
        if (slot < 0) internal("too many collectives in flight");
        Inst &x = g.inst[slot];
        memset(&x, 0, sizeof x);
        x.used = 1; x.kind = a.kind; x.nb = a.nb; x.mop = a.mop; x.comm = a.comm; x.root = a.root; x.prim = prim; x.ord = mx + 1;
        for (int i = 0; i < MAXPE; i++) x.blob[i] = -1;
    }
    Inst &x = g.inst[slot];
    if (x.kind != a.kind || x.nb != a.nb || x.root != a.root || x.mop != a.mop || x.prim != prim)
        viol("mismatched collectives on a communicator: PE %d calls %s (root %d) while others are in a different collective (kind %d, root %d)", cur, f, a.root, x.kind, x.root);
    std::string ct;
    int64_t lb, ext;
    bool inpl = a.sb == MPI_IN_PLACE;
    switch (a.kind) {
    case I_BARRIER: break;
    case I_BCAST: if (m == a.root) ct = pack(cur, (uint64_t) a.rb, a.rc, a.rt); break;
    case I_ALLGATHER: textent(cur, a.rt, &lb, &ext); ct = inpl ? pack(cur, (uint64_t) a.rb + m * a.rc * ext, a.rc, a.rt) : pack(cur, (uint64_t) a.sb, a.sc, a.st); break;
    case I_ALLGATHERV: textent(cur, a.rt, &lb, &ext); ct = inpl ? pack(cur, (uint64_t) a.rb + a.rds[m] * ext, a.rcs[m], a.rt) : pack(cur, (uint64_t) a.sb, a.sc, a.st); break;
    case I_GATHER: ct = inpl ? std::string() : pack(cur, (uint64_t) a.sb, a.sc, a.st); break;
    case I_ALLREDUCE: case I_REDUCE: case I_SCAN: case I_EXSCAN: ct = inpl ? pack(cur, (uint64_t) a.rb, a.rc, a.rt) : pack(cur, (uint64_t) a.sb, a.sc, a.st); break;
    case I_SCATTER:
        if (m == a.root) { textent(cur, a.st, &lb, &ext); for (int j = 0; j < c.n; j++) { std::string b = pack(cur, (uint64_t) a.sb + j * a.sc * ext, a.sc, a.st); x.blk[m][j] = b.size(); ct += b; } }
        break;
    case I_ALLTOALL: {
        int sc = inpl ? a.rc : a.sc, st = inpl ? a.rt : a.st;
        uint64_t sb = inpl ? (uint64_t) a.rb : (uint64_t) a.sb;
        textent(cur, st, &lb, &ext);
        for (int j = 0; j < c.n; j++) { std::string b = pack(cur, sb + j * sc * ext, sc, st); x.blk[m][j] = b.size(); ct += b; }
        break;
    }
    case I_ALLTOALLV: {
        const int *scs = inpl ? a.rcs : a.scs, *sds = inpl ? a.rds : a.sds; int st = inpl ? a.rt : a.st;
        uint64_t sb = inpl ? (uint64_t) a.rb : (uint64_t) a.sb;
        textent(cur, st, &lb, &ext);
        for (int j = 0; j < c.n; j++) { std::string b = pack(cur, sb + sds[j] * ext, scs[j], st); x.blk[m][j] = b.size(); ct += b; }
        break;
    }
    }
    if (!inpl && ct.size() && a.sb == a.rb && a.kind != I_BARRIER && a.kind != I_BCAST && !((a.kind == I_REDUCE || a.kind == I_GATHER || a.kind == I_SCATTER) && m != a.root))
        viol("MPI misuse: %s on PE %d with the same send and receive buffer", f, cur);
    x.arrived |= 1 << m;
    x.blob[m] = ct.size() ? blob_new(cur, ct.data(), ct.size()) : -1;
    int r = req_new(R_COLL);
    Req &q = P(cur).req[r - 1];
    q.inst = slot; q.buf = (uint64_t) a.rb; q.cnt = a.rc; q.type = a.rt; q.x = (uint64_t) a.rcs; q.y = (uint64_t) a.rds; q.comm = a.comm;
    TR("    inst %d comm %d (rank %d)", slot, a.comm, m);
    return r;
}
static std::string contrib(const Inst &x, const Comm &c, int i) { return x.blob[i] < 0 ? std::string() : std::string(blob_ptr(c.r[i], x.blob[i]), blob_len(c.r[i], x.blob[i])); }
static void coll_unpack(const char *what, uint64_t b, int64_t cnt, int t, const std::string &s)
{
    int64_t cap = tsize(cur, t) * cnt;
    if ((int64_t) s.size() != cap) viol("%s: a receive of %ld bytes meets a contribution of %zu bytes", what, (long) cap, s.size());
    unpack(cur, b, cnt, t, s.data(), s.size());
}
static void coll_finish(int r)
{
    Req q = ps[cur]->req[r - 1];
    Inst &x = G().inst[q.inst];
    Comm c = gs->comm[q.comm];
    int m = crank(c, cur);
    int64_t lb, ext = 0;
    if (q.type) textent(cur, q.type, &lb, &ext);
    switch (x.kind) {
    case I_BCAST: if (m != x.root) coll_unpack("broadcast", q.buf, q.cnt, q.type, contrib(x, c, x.root)); break;
    case I_ALLGATHER: for (int i = 0; i < c.n; i++) coll_unpack("allgather", q.buf + i * q.cnt * ext, q.cnt, q.type, contrib(x, c, i)); break;
    case I_ALLGATHERV: for (int i = 0; i < c.n; i++) coll_unpack("allgatherv", q.buf + ((int *) q.y)[i] * ext, ((int *) q.x)[i], q.type, contrib(x, c, i)); break;
    case I_GATHER: if (m == x.root) for (int i = 0; i < c.n; i++) coll_unpack("gather", q.buf + i * q.cnt * ext, q.cnt, q.type, contrib(x, c, i)); break;
    case I_SCATTER: { std::string s = contrib(x, c, x.root); int o = 0; for (int j = 0; j < m; j++) o += x.blk[x.root][j]; coll_unpack("scatter", q.buf, q.cnt, q.type, s.substr(o, x.blk[x.root][m])); break; }
    case I_ALLTOALL: case I_ALLTOALLV:
        for (int i = 0; i < c.n; i++) {
            std::string s = contrib(x, c, i);
            int o = 0;
            for (int j = 0; j < m; j++) o += x.blk[i][j];
            s = s.substr(std::min((size_t) o, s.size()), x.blk[i][m]);
            if (x.kind == I_ALLTOALL) coll_unpack("alltoall", q.buf + i * q.cnt * ext, q.cnt, q.type, s);
            else coll_unpack("alltoallv", q.buf + ((int *) q.y)[i] * ext, ((int *) q.x)[i], q.type, s);
        }
        break;
    case I_ALLREDUCE: case I_REDUCE: case I_SCAN: case I_EXSCAN: {
        if (x.kind == I_REDUCE && m != x.root) break;
        int hi = x.kind == I_SCAN ? m + 1 : x.kind == I_EXSCAN ? m : c.n;
        if (hi == 0) break;
        std::string acc = contrib(x, c, 0);
        for (int i = 1; i < hi; i++) {
            std::string s = contrib(x, c, i);
            if (s.size() != acc.size()) viol("reduction with different sizes on different PEs");
            for (size_t k = 0; k + primsize[x.prim] <= s.size(); k += primsize[x.prim]) op1(x.mop, x.prim, &acc[k], &s[k]);
        }
        coll_unpack("reduction", q.buf, q.cnt, q.type, acc);
        break;
    }
    }
    x.done |= 1 << m;
    if (__builtin_popcount(x.done) == c.n) {
        for (int i = 0; i < c.n; i++) if (x.blob[i] >= 0) blob_del(c.r[i], x.blob[i]);
        int comm = x.comm, ord = x.ord;
        memset(&x, 0, sizeof x);
        for (int i = 0; i < MAXINST; i++) if (gs->inst[i].used && gs->inst[i].comm == comm && gs->inst[i].ord > ord) gs->inst[i].ord--;
    }
}

// ------------------------------------------------------------------ completion
static bool req_done(int pe, int r)
{
    if (r == MPI_REQUEST_NULL) return true;
    if (r < 1 || r > MAXREQ) return true; // reported by rq()
    const Req &q = ps[pe]->req[r - 1];
    if (q.kind == R_COLL) return inst_ready(gs->inst[q.inst], crank(gs->comm[q.comm], pe));
    return q.done;
}
static void req_complete(int *r, MPI_Status *st)
{
    if (*r == MPI_REQUEST_NULL) { if (st) { st->MPI_SOURCE = MPI_ANY_SOURCE; st->MPI_TAG = MPI_ANY_TAG; st->mc_count = 0; st->MPI_ERROR = 0; } return; }
    Req q = rq(*r);
    if (q.kind == R_COLL) coll_finish(*r);
    if (st) { st->MPI_SOURCE = q.st_src; st->MPI_TAG = q.st_tag; st->mc_count = q.st_cnt; st->MPI_ERROR = q.cancelled ? -1 : 0; }
    req_free(cur, *r);
    *r = MPI_REQUEST_NULL;
}
static void wait_(int n, int *r, bool any)
{
    for (int i = 0; i < n; i++) if (r[i]) rq(r[i]);
    Co &k = P(cur).co[curT];
    k.wk = any ? W_WAITANY : W_WAIT; k.n = n; k.ptr = (uint64_t) r;
    co_yield_();
}
C int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c)
{
    ENTER();
    int r = send_(__func__, b, n, t, d, tag, c, cfg.rndv, true);
    if (cfg.rndv) wait_(1, &r, false);
    req_complete(&r, 0);
    return 0;
}
C int MPI_Rsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return MPI_Send(b, n, t, d, tag, c); }
C int MPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { ENTER(); int r = send_(__func__, b, n, t, d, tag, c, true, true); wait_(1, &r, false); req_complete(&r, 0); return 0; }
C int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { ENTER(); *r = send_(__func__, b, n, t, d, tag, c, cfg.rndv, false); return 0; }
C int MPI_Issend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { ENTER(); *r = send_(__func__, b, n, t, d, tag, c, true, false); return 0; }
C int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *r) { ENTER(); *r = recv_(__func__, b, n, t, s, tag, c); return 0; }
C int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st)
{
    ENTER();
    int r = recv_(__func__, b, n, t, s, tag, c);
    wait_(1, &r, false);
    req_complete(&r, st);
    return 0;
}
C int MPI_Sendrecv(const void *b, int n, MPI_Datatype t, int d, int tag, void *rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status *st)
{
    ENTER();
    int r[2];
    r[0] = recv_(__func__, rb, rn, rt, s, rtag, c);
    r[1] = send_(__func__, b, n, t, d, tag, c, cfg.rndv, false);
    wait_(2, r, false);
    req_complete(&r[0], st); req_complete(&r[1], 0);
    return 0;
}
static int probe_find(int pe, int comm, int src, int tag)
{
    const PS &s = *ps[pe];
    for (int i = 0; i < s.nmsg; i++) if (s.msg[i].state == 2 && msg_match(s.msg[i], comm, src, tag)) return i;
    return -1;
}
static int probe_src(int comm, int src, const char *f) { Comm &c = cmy(comm, f); return src == MPI_ANY_SOURCE ? src : src >= 0 && src < c.n ? c.r[src] : -99; }
C int MPI_Iprobe(int src, int tag, MPI_Comm c, int *flag, MPI_Status *st)
{
    ENTER();
    int s = probe_src(c, src, __func__);
    sched_ready();
    int i = probe_find(cur, c, s, tag);
    *flag = i >= 0;
    if (*flag && st) { Msg &m = ps[cur]->msg[i]; st->MPI_SOURCE = crank(gs->comm[c], m.src); st->MPI_TAG = m.tag; st->mc_count = m.len; }
    return 0;
}
C int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status *st)
{
    ENTER();
    Co &k = P(cur).co[curT];
    k.wk = W_PROBE; k.a = c; k.b = probe_src(c, src, __func__); k.c = tag;
    co_yield_();
    Msg &m = ps[cur]->msg[probe_find(cur, c, ps[cur]->co[curT].b, tag)];
    if (st) { st->MPI_SOURCE = crank(gs->comm[c], m.src); st->MPI_TAG = m.tag; st->mc_count = m.len; }
    return 0;
}
C int MPI_Get_count(const MPI_Status *st, MPI_Datatype t, int *n) { int s = tsize(cur, t); *n = s ? st->mc_count / s : 0; return 0; }
C int MPI_Wait(MPI_Request *r, MPI_Status *st) { ENTER(); if (*r == MPI_REQUEST_NULL) { req_complete(r, st); return 0; } wait_(1, r, false); req_complete(r, st); return 0; }
C int MPI_Waitall(int n, MPI_Request r[], MPI_Status st[])
{
    ENTER();
    bool any = false;
    for (int i = 0; i < n; i++) any |= r[i] != 0;
    if (any) wait_(n, r, false);
    for (int i = 0; i < n; i++) req_complete(&r[i], st ? &st[i] : 0);
    return 0;
}
C int MPI_Waitany(int n, MPI_Request r[], int *idx, MPI_Status *st)
{
    ENTER();
    bool any = false;
    for (int i = 0; i < n; i++) any |= r[i] != 0;
    if (!any) { *idx = MPI_UNDEFINED; return 0; }
    wait_(n, r, true);
    for (int i = 0; i < n; i++) if (r[i] && req_done(cur, r[i])) { *idx = i; req_complete(&r[i], st); return 0; }
    internal("waitany");
}
C int MPI_Waitsome(int n, MPI_Request r[], int *cnt, int idx[], MPI_Status st[])
{
    ENTER();
    bool any = false;
    for (int i = 0; i < n; i++) any |= r[i] != 0;
    if (!any) { *cnt = MPI_UNDEFINED; return 0; }
    wait_(n, r, true);
    *cnt = 0;
    for (int i = 0; i < n; i++) if (r[i] && req_done(cur, r[i])) { idx[*cnt] = i; req_complete(&r[i], st ? &st[*cnt] : 0); ++*cnt; }
    return 0;
}
C int MPI_Test(MPI_Request *r, int *flag, MPI_Status *st)
{
    ENTER();
    if (*r) rq(*r);
    sched_ready();
    *flag = req_done(cur, *r);
    if (*flag) req_complete(r, st);
    return 0;
}
C int MPI_Testall(int n, MPI_Request r[], int *flag, MPI_Status st[])
{
    ENTER();
    sched_ready();
    *flag = 1;
    for (int i = 0; i < n; i++) if (r[i]) { rq(r[i]); if (!req_done(cur, r[i])) *flag = 0; }
    if (*flag) for (int i = 0; i < n; i++) req_complete(&r[i], st ? &st[i] : 0);
    return 0;
}
C int MPI_Testany(int n, MPI_Request r[], int *idx, int *flag, MPI_Status *st)
{
    ENTER();
    sched_ready();
    *flag = 0; *idx = MPI_UNDEFINED;
    bool any = false;
    for (int i = 0; i < n; i++) if (r[i]) { any = true; rq(r[i]); if (req_done(cur, r[i])) { *idx = i; *flag = 1; req_complete(&r[i], st); return 0; } }
    if (!any) *flag = 1;
    return 0;
}
C int MPI_Testsome(int n, MPI_Request r[], int *cnt, int idx[], MPI_Status st[])
{
    ENTER();
    sched_ready();
    *cnt = 0;
    bool any = false;
    for (int i = 0; i < n; i++) if (r[i]) { any = true; rq(r[i]); if (req_done(cur, r[i])) { idx[*cnt] = i; req_complete(&r[i], st ? &st[*cnt] : 0); ++*cnt; } }
    if (!any) *cnt = MPI_UNDEFINED;
    return 0;
}
C int MPI_Request_free(MPI_Request *r)
{
    ENTER();
    Req &q = rq(*r);
    bool active = q.kind == R_RECV && !q.done;
    if (q.kind == R_SEND) for (int d = 0; d < NPE; d++) for (int i = 0; i < ps[d]->nmsg; i++) if (ps[d]->msg[i].src == cur && ps[d]->msg[i].sreq == *r) active = true;
    if (q.kind != R_SEND && q.kind != R_RECV) internal("MPI_Request_free of an active request");
    if (active) q.released = 1; // nobody will learn when it completes: the message leaves from, or lands in, the buffer at any later time
    else req_free(cur, *r);
    *r = MPI_REQUEST_NULL;
    return 0;
}
C int MPI_Request_get_status(MPI_Request r, int *flag, MPI_Status *) { ENTER(); sched_ready(); *flag = req_done(cur, r); return 0; }
C int MPI_Cancel(MPI_Request *r) { ENTER(); Req &q = rq(*r); if (q.kind == R_RECV && !q.done) { int ord = q.ord; q.done = 1; q.cancelled = 1; q.ord = 0; PS &s = P(cur); for (int i = 0; i < MAXREQ; i++) if (s.req[i].kind == R_RECV && !s.req[i].done && s.req[i].ord > ord) s.req[i].ord--; } return 0; }
C int MPI_Test_cancelled(const MPI_Status *st, int *f) { *f = st->MPI_ERROR == -1; return 0; }

static int coll(const char *f, CollArg a, MPI_Request *nb)
{
    a.nb = nb != 0;
    int r = coll_start(f, a);
    if (nb) { *nb = r; return 0; }
    wait_(1, &r, false);
    req_complete(&r, 0);
    return 0;
}
#define BOTH(name, iname, params, iparams, setup) \
    C int name params { ENTER(); CollArg a; setup; return coll(#name, a, 0); } \
    C int iname iparams { ENTER(); CollArg a; setup; return coll(#iname, a, nbreq); }
#define PK(...) (__VA_ARGS__)
BOTH(MPI_Barrier, MPI_Ibarrier, (MPI_Comm c), (MPI_Comm c, MPI_Request *nbreq), (a.kind = I_BARRIER, a.comm = c))
BOTH(MPI_Bcast, MPI_Ibcast, (void *b, int n, MPI_Datatype t, int root, MPI_Comm c), (void *b, int n, MPI_Datatype t, int root, MPI_Comm c, MPI_Request *nbreq), (a.kind = I_BCAST, a.comm = c, a.rb = b, a.rc = n, a.rt = t, a.root = root))
BOTH(MPI_Allgather, MPI_Iallgather, (const void *s, int sn, MPI_Datatype st, void *b, int n, MPI_Datatype t, MPI_Comm c), (const void *s, int sn, MPI_Datatype st, void *b, int n, MPI_Datatype t, MPI_Comm c, MPI_Request *nbreq), (a.kind = I_ALLGATHER, a.comm = c, a.sb = s, a.sc = sn, a.st = st, a.rb = b, a.rc = n, a.rt = t))
BOTH(MPI_Allgatherv, MPI_Iallgatherv, (const void *s, int sn, MPI_Datatype st, void *b, const int *n, const int *d, MPI_Datatype t, MPI_Comm c), (const void *s, int sn, MPI_Datatype st, void *b, const int *n, const int *d, MPI_Datatype t, MPI_Comm c, MPI_Request *nbreq), (a.kind = I_ALLGATHERV, a.comm = c, a.sb = s, a.sc = sn, a.st = st, a.rb = b, a.rcs = n, a.rds = d, a.rt = t))
BOTH(MPI_Alltoall, MPI_Ialltoall, (const void *s, int sn, MPI_Datatype st, void *b, int n, MPI_Datatype t, MPI_Comm c), (const void *s, int sn, MPI_Datatype st, void *b, int n, MPI_Datatype t, MPI_Comm c, MPI_Request *nbreq), (a.kind = I_ALLTOALL, a.comm = c, a.sb = s, a.sc = sn, a.st = st, a.rb = b, a.rc = n, a.rt = t))
BOTH(MPI_Alltoallv, MPI_Ialltoallv, (const void *s, const int *sn, const int *sd, MPI_Datatype st, void *b, const int *n, const int *d, MPI_Datatype t, MPI_Comm c), (const void *s, const int *sn, const int *sd, MPI_Datatype st, void *b, const int *n, const int *d, MPI_Datatype t, MPI_Comm c, MPI_Request *nbreq), (a.kind = I_ALLTOALLV, a.comm = c, a.sb = s, a.scs = sn, a.sds = sd, a.st = st, a.rb = b, a.rcs = n, a.rds = d, a.rt = t))
BOTH(MPI_Allreduce, MPI_Iallreduce, (const void *s, void *b, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c), (const void *s, void *b, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request *nbreq), (a.kind = I_ALLREDUCE, a.comm = c, a.sb = s, a.sc = n, a.st = t, a.rb = b, a.rc = n, a.rt = t, a.mop = op))
BOTH(MPI_Reduce, MPI_Ireduce, (const void *s, void *b, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c), (const void *s, void *b, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c, MPI_Request *nbreq), (a.kind = I_REDUCE, a.comm = c, a.sb = s, a.sc = n, a.st = t, a.rb = b, a.rc = n, a.rt = t, a.mop = op, a.root = root))
C int MPI_Scan(const void *s, void *b, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { ENTER(); CollArg a; a.kind = I_SCAN, a.comm = c, a.sb = s, a.sc = n, a.st = t, a.rb = b, a.rc = n, a.rt = t, a.mop = op; return coll(__func__, a, 0); }
C int MPI_Exscan(const void *s, void *b, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { ENTER(); CollArg a; a.kind = I_EXSCAN, a.comm = c, a.sb = s, a.sc = n, a.st = t, a.rb = b, a.rc = n, a.rt = t, a.mop = op; return coll(__func__, a, 0); }
C int MPI_Gather(const void *s, int sn, MPI_Datatype st, void *b, int n, MPI_Datatype t, int root, MPI_Comm c) { ENTER(); CollArg a; a.kind = I_GATHER, a.comm = c, a.sb = s, a.sc = sn, a.st = st, a.rb = b, a.rc = n, a.rt = t, a.root = root; return coll(__func__, a, 0); }
C int MPI_Scatter(const void *s, int sn, MPI_Datatype st, void *b, int n, MPI_Datatype t, int root, MPI_Comm c) { ENTER(); CollArg a; a.kind = I_SCATTER, a.comm = c, a.sb = s, a.sc = sn, a.st = st, a.rb = b, a.rc = n, a.rt = t, a.root = root; return coll(__func__, a, 0); }

C int MPI_Win_lock(int, int, int, MPI_Win) { internal("unsupported MPI_Win_lock"); }
C int MPI_Win_unlock(int, MPI_Win) { internal("unsupported MPI_Win_unlock"); }
C int MPI_Comm_idup(MPI_Comm, MPI_Comm *, MPI_Request *) { internal("unsupported MPI_Comm_idup"); }
C int MPI_Rput(const void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win, MPI_Request *) { internal("unsupported MPI_Rput"); }
C int MPI_Rget(void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win, MPI_Request *) { internal("unsupported MPI_Rget"); }
C int MPI_Raccumulate(const void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win, MPI_Request *) { internal("unsupported MPI_Raccumulate"); }

// ------------------------------------------------------------------ enabledness
static int mtx_find(int pe, uint64_t a) { for (int i = 0; i < MAXMUTEX; i++) if (ps[pe]->mtx[i].used && ps[pe]->mtx[i].addr == a) return i; return -1; }
bool co_enabled(int pe, int t)
{
    const Co &k = ps[pe]->co[t];
    switch (k.wk) {
    case W_DEAD: return false;
    case W_READY: case W_CHOOSE: return true;
    case W_WAIT: for (int i = 0; i < k.n; i++) if (!req_done(pe, ((int *) k.ptr)[i])) return false; return true;
    case W_WAITANY: for (int i = 0; i < k.n; i++) if (((int *) k.ptr)[i] && req_done(pe, ((int *) k.ptr)[i])) return true; return false;
    case W_PROBE: return probe_find(pe, k.a, k.b, k.c) >= 0;
    case W_CONS: { const Cons &c = gs->cons[k.a]; return __builtin_popcount(c.arrived) == c.n; }
    case W_GHOST: return gs->ghost[k.a] >= k.val;
    case W_MUTEX: return mtx_find(pe, k.ptr) < 0;
    case W_COND: return k.a != 0 && mtx_find(pe, k.arg) < 0;
    case W_JOIN: return ps[pe]->co[k.a].wk == W_DEAD;
    case W_FIN: for (int p = 0; p < NPE; p++) if (!ps[p]->finalized) return false; return true;
    default: return false; // CHOOSEALL, BEGIN, END are released by the explorer
    }
}

// ------------------------------------------------------------------ threads (pthread stand-ins)
static void dead_del(uint64_t a) { for (int i = 0; i < 16; i++) if (ps[cur]->dead[i] == a) { PS &s = P(cur); for (int k = i; k < 15; k++) s.dead[k] = s.dead[k + 1]; s.dead[15] = 0; return; } }
static void dead_add(uint64_t a) { dead_del(a); PS &s = P(cur); int i = 0; while (i < 16 && s.dead[i]) i++; if (i == 16) { for (int k = 0; k < 15; k++) s.dead[k] = s.dead[k + 1]; i = 15; } s.dead[i] = a; }
static void dead_chk(void *m, const char *w) { for (auto d : ps[cur]->dead) if (d && d == (uint64_t) m) viol("%s after it was destroyed", w); }
C void mc_atomic_point(void) { if (gs->explore && nlive() > 1) sched_ready(); }
// a plain access to memory other PEs can reach (variant memy): they may act between any two of them
static void mem_point(uint64_t a, uint64_t n)
{
    if (cur < 0 || !gs->explore || !n) return;
    for (auto &w : gs->win) {
        if (!w.used || (w.freed >> cur & 1)) continue;
        if (!w.dynamic) { if (w.size[cur] && a + n > w.base[cur] && a < w.base[cur] + w.size[cur]) { TR("PE%d.%d plain access", cur, curT); sched_ready(); return; } continue; }
        for (int k = 0; k < MAXREG; k++) if (w.reg[cur][k].size && a + n > w.reg[cur][k].base && a < w.reg[cur][k].base + w.reg[cur][k].size) { TR("PE%d.%d plain access", cur, curT); sched_ready(); return; }
    }
}
#define TS1(n) C void __tsan_read##n(void *p) { mem_point((uint64_t) p, n); } C void __tsan_write##n(void *p) { mem_point((uint64_t) p, n); } \
    C void __tsan_unaligned_read##n(void *p) { mem_point((uint64_t) p, n); } C void __tsan_unaligned_write##n(void *p) { mem_point((uint64_t) p, n); } \
    C void __tsan_volatile_read##n(void *p) { mem_point((uint64_t) p, n); } C void __tsan_volatile_write##n(void *p) { mem_point((uint64_t) p, n); }
TS1(1) TS1(2) TS1(4) TS1(8) TS1(16)
C void __tsan_read_range(void *p, size_t n) { mem_point((uint64_t) p, n); }
C void __tsan_write_range(void *p, size_t n) { mem_point((uint64_t) p, n); }
C void __tsan_init(void) {}
C void __tsan_func_entry(void *) {}
C void __tsan_func_exit(void) {}
C void *mc_memcpy(void *d, const void *s, size_t n) { mem_point((uint64_t) s, n); mem_point((uint64_t) d, n); return memcpy(d, s, n); }
C void *mc_memmove(void *d, const void *s, size_t n) { mem_point((uint64_t) s, n); mem_point((uint64_t) d, n); return memmove(d, s, n); }
C void *mc_memset(void *d, int c, size_t n) { mem_point((uint64_t) d, n); return memset(d, c, n); }
static void mtx_take(uint64_t a)
{
    PS &s = P(cur);
    for (int i = 0; i < MAXMUTEX; i++) if (!s.mtx[i].used) { s.mtx[i].used = 1; s.mtx[i].addr = a; s.mtx[i].owner = curT; return; }
    internal("too many mutexes");
}
C int __wrap_pthread_mutex_init(void *m, const void *) { dead_del((uint64_t) m); return 0; }
C int __wrap_pthread_mutex_destroy(void *m) { if (mtx_find(cur, (uint64_t) m) >= 0) viol("mutex destroyed while locked"); for (int t = 0; t < MAXT; t++) { const Co &k = ps[cur]->co[t]; if (k.wk == W_MUTEX && k.ptr == (uint64_t) m) viol("mutex destroyed while a thread waits for it"); } dead_add((uint64_t) m); return 0; }
C int __wrap_pthread_mutex_lock(void *m)
{
    dead_chk(m, "mutex locked");
    if (nlive() > 1 || mtx_find(cur, (uint64_t) m) >= 0) {
        Co &k = P(cur).co[curT];
        k.wk = W_MUTEX; k.ptr = (uint64_t) m;
        co_yield_();
        dead_chk(m, "mutex locked");
    }
    mtx_take((uint64_t) m);
    return 0;
}
C int __wrap_pthread_mutex_trylock(void *m) { if (nlive() > 1) sched_ready(); if (mtx_find(cur, (uint64_t) m) >= 0) return 16; mtx_take((uint64_t) m); return 0; }
static void mtx_release(uint64_t a)
{
    int i = mtx_find(cur, a);
    if (i < 0 || ps[cur]->mtx[i].owner != curT) viol("mutex unlocked by a thread that does not hold it");
    memset(&P(cur).mtx[i], 0, sizeof P(cur).mtx[i]);
}
C int __wrap_pthread_mutex_unlock(void *m) { mtx_release((uint64_t) m); return 0; }
C int __wrap_pthread_cond_init(void *c, const void *) { dead_del((uint64_t) c); return 0; }
C int __wrap_pthread_cond_destroy(void *c) { for (int t = 0; t < MAXT; t++) { const Co &k = ps[cur]->co[t]; if (k.wk == W_COND && k.ptr == (uint64_t) c && !k.a) viol("condition variable destroyed while a thread waits for it"); } dead_add((uint64_t) c); return 0; }
C int __wrap_pthread_cond_wait(void *c, void *m)
{
    mtx_release((uint64_t) m);
    Co &k = P(cur).co[curT];
    k.wk = W_COND; k.ptr = (uint64_t) c; k.arg = (uint64_t) m; k.a = 0;
    co_yield_();
    mtx_take((uint64_t) m);
    return 0;
}
C int __wrap_pthread_cond_signal(void *c)
{
    if (nlive() > 1) sched_ready();
    dead_chk(c, "condition variable signalled");
    for (int t = 0; t < MAXT; t++) { Co &k = P(cur).co[t]; if (k.wk == W_COND && k.ptr == (uint64_t) c && !k.a) { k.a = 1; break; } }
    return 0;
}
C int __wrap_pthread_cond_broadcast(void *c) { for (int t = 0; t < MAXT; t++) { Co &k = P(cur).co[t]; if (k.wk == W_COND && k.ptr == (uint64_t) c) k.a = 1; } return 0; }
C int __wrap_pthread_attr_init(void *) { return 0; }
C int __wrap_pthread_attr_destroy(void *) { return 0; }
C int __wrap_pthread_attr_setdetachstate(void *, int) { return 0; }
int spawn_co(int pe, void *(*fn)(void *), void *arg);
C int __wrap_pthread_create(unsigned long *t, const void *, void *(*fn)(void *), void *arg) { int k = spawn_co(cur, fn, arg); *t = k; return 0; }
C int __wrap_pthread_join(unsigned long t, void **) { mc_join(t); return 0; }
C unsigned long __wrap_pthread_self(void) { return curT; }
C int mc_spawn(void *(*fn)(void *), void *arg) { return spawn_co(cur, fn, arg); }
C void mc_join(int t) { Co &k = P(cur).co[curT]; k.wk = W_JOIN; k.a = t; co_yield_(); }

// ------------------------------------------------------------------ checks at the end
int live_count(int pe, int what)
{
    const PS &s = *ps[pe];
    int n = 0;
    switch (what) {
    case 0: for (auto &r : s.req) n += r.kind != R_FREE; break;
    case 1: for (int i = 0; i < s.tyhi; i++) n += s.ty[i].kind != T_FREE; break;
    case 2: for (int i = 3; i < MAXCOMM; i++) { const Comm &c = gs->comm[i]; bool w = false; for (auto &x : gs->win) w |= x.used && x.comm == i; if (c.used && !w && crank(c, pe) >= 0 && !(c.freed >> pe & 1)) n++; } break;
    case 3: for (auto &w : gs->win) n += w.used && crank(gs->comm[w.comm], pe) >= 0; break;
    case 4: for (auto &g : s.grp) n += g.used; break;
    case 5: for (auto &i : s.info) n += i.used; break;
    case 6: for (int i = 0; i < s.nblk; i++) n += s.blk[i].live == 1; break;
    }
    return n;
}
C int mc_live(int what) { return live_count(cur, what); }
void mock_final_check()
{
    static const char *nm[] = { "requests", "derived datatypes", "communicators", "windows", "groups", "infos", "heap blocks" };
    for (int p = 0; p < NPE; p++) {
        arena_check(p);
        if (!ps[p]->leakcheck) continue;
        for (int w = 0; w < 7; w++) { int n = live_count(p, w); if (n) viol("resources left after finalization: PE %d holds %d %s", p, n, nm[w]); }
        if (ps[p]->nmsg) viol("message from PE %d to PE %d never received", ps[p]->msg[0].src, p);
        if (ps[p]->nop) viol("RMA operation of PE %d never completed", p);
        if (ps[p]->inited && !ps[p]->finalized) viol("MPI not finalized on PE %d", p);
    }
}
void mock_init()
{
    GS &g = G();
    memset(&g, 0, sizeof g);
    g.comm[1].used = 1; g.comm[1].n = NPE;
    for (int i = 0; i < NPE; i++) g.comm[1].r[i] = i;
}

// ------------------------------------------------------------------ scenario API needing MPI state
extern uint64_t dso_lo[MAXPE], dso_hi[MAXPE];
C void *mc_remote(const void *p, int pe)
{
    uint64_t a = (uint64_t) p;
    if (pe < 0 || pe >= NPE) internal("mc_remote: bad PE");
    if (a >= dso_lo[cur] && a < dso_hi[cur]) return (void *) (a - dso_lo[cur] + dso_lo[pe]);
    for (auto &w : gs->win) {
        if (!w.used) continue;
        if (!w.dynamic && w.size[cur] && a >= w.base[cur] && a < w.base[cur] + w.size[cur]) return (void *) (a - w.base[cur] + w.base[pe]);
        if (w.dynamic) for (int i = 0; i < MAXREG; i++) if (w.reg[cur][i].size && a >= w.reg[cur][i].base && a < w.reg[cur][i].base + w.reg[cur][i].size) return (void *) (a - w.reg[cur][i].base + w.reg[pe][i].base);
    }
    return nullptr;
}
C int mc_pending_rma(int pe) { int n = 0; for (int i = 0; i < ps[pe]->nop; i++) n += !ps[pe]->op[i].applied; return n; }
C int mc_pending_msgs(int pe) { int n = 0; for (int d = 0; d < NPE; d++) for (int i = 0; i < ps[d]->nmsg; i++) n += ps[d]->msg[i].src == pe; return n; }
// the i-th segment of this PE exposed through a live window
C int mc_segment(int i, void **lo, size_t *n)
{
    for (auto &w : gs->win) {
        if (!w.used || (w.freed >> cur & 1) || crank(gs->comm[w.comm], cur) < 0) continue;
        if (!w.dynamic) { if (w.size[cur] && i-- == 0) { *lo = (void *) w.base[cur]; *n = w.size[cur]; return 1; } continue; }
        for (int k = 0; k < MAXREG; k++) if (w.reg[cur][k].size && i-- == 0) { *lo = (void *) w.reg[cur][k].base; *n = w.reg[cur][k].size; return 1; }
    }
    return 0;
}
