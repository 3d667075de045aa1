// Explicit-state exploration of the real library code running on the simulated MPI.
#include "core.h"
#include <csetjmp>
#include <csignal>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <link.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>
#include <algorithm>

#define C extern "C"
PS *ps[MAXPE];
GS *gs;
int NPE, cur = -1, curT = 0;
bool dirty_ps[MAXPE], dirty_gs, dirty_mem[MAXPE], g_trace;
Cfg cfg;
uint64_t dso_lo[MAXPE], dso_hi[MAXPE], dso_all_lo[MAXPE], dso_all_hi[MAXPE];
static void *dso[MAXPE];
static int NT = 1; // thread slots per PE
static std::string scen_name;
static std::vector<std::string> tracelog;
static sigjmp_buf step_jmp;
static volatile sig_atomic_t in_step;
static volatile long step_no;
static std::string viol_msg;
static int logfd = 1;
static double t0;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string vfmt(const char *f, va_list a) { char b[2048]; vsnprintf(b, sizeof b, f, a); return b; }
void tracef(const char *f, ...) { va_list a; va_start(a, f); if (tracelog.size() < 200000) tracelog.push_back(vfmt(f, a)); va_end(a); }
void viol(const char *f, ...)
{
    va_list a; va_start(a, f); viol_msg = vfmt(f, a); va_end(a);
    if (in_step) siglongjmp(step_jmp, 1);
    internal("violation outside a step: %s", viol_msg.c_str());
}
static std::string outpath;
void internal(const char *f, ...)
{
    va_list a; va_start(a, f); std::string s = vfmt(f, a); va_end(a);
    dprintf(logfd, "INTERNAL %s\n", s.c_str());
    if (!outpath.empty()) if (FILE *o = fopen(outpath.c_str(), "w")) { std::string q; for (char c : s) { if (c == '"' || c == '\\') q += '\\'; q += c; } fprintf(o, "{\"status\":\"internal\",\"message\":\"%s\"}\n", q.c_str()); fclose(o); }
    _exit(3);
}

// ------------------------------------------------------------------ content-addressed store
struct Store {
    size_t isz, n = 0, cap = 0;
    std::vector<char *> chunk;
    std::vector<uint32_t> tab;
    std::vector<uint64_t> hs;
    size_t per;
    void init(size_t item) { isz = item; per = std::max<size_t>(1, (1 << 20) / isz); tab.assign(1 << 12, UINT32_MAX); }
    char *at(uint32_t i) { return chunk[i / per] + (i % per) * isz; }
    static uint64_t hash(const char *p, size_t n)
    {
        uint64_t h = 0x9E3779B97F4A7C15ull ^ n;
        size_t i = 0;
        for (; i + 8 <= n; i += 8) { uint64_t v; memcpy(&v, p + i, 8); h = (h ^ v) * 0xff51afd7ed558ccdull; h ^= h >> 32; }
        for (; i < n; i++) { h = (h ^ (unsigned char) p[i]) * 0xff51afd7ed558ccdull; h ^= h >> 32; }
        return h ^ (h >> 29);
    }
    uint32_t put(const void *vp, bool *fresh = nullptr)
    {
        const char *p = (const char *) vp;
        uint64_t h = hash(p, isz);
        size_t m = tab.size() - 1, k = h & m;
        while (tab[k] != UINT32_MAX) {
            uint32_t i = tab[k];
            if (hs[i] == h && !memcmp(at(i), p, isz)) { if (fresh) *fresh = false; return i; }
            k = (k + 1) & m;
        }
        if (n % per == 0) chunk.push_back((char *) malloc(per * isz));
        uint32_t i = n++;
        memcpy(at(i), p, isz);
        hs.push_back(h);
        tab[k] = i;
        if (n * 2 > tab.size()) {
            std::vector<uint32_t> t2(tab.size() * 2, UINT32_MAX);
            size_t m2 = t2.size() - 1;
            for (uint32_t j = 0; j < n; j++) { size_t q = hs[j] & m2; while (t2[q] != UINT32_MAX) q = (q + 1) & m2; t2[q] = j; }
            tab.swap(t2);
        }
        if (fresh) *fresh = true;
        return i;
    }
    size_t bytes() const { return chunk.size() * per * isz + tab.size() * 4 + hs.size() * 8; }
};
enum { PG = 512, FAN = 32 };
static Store pages, nodes, states;
static uint32_t zero_node[3];

// a component: a list of pages; id = root of a 3-level tree of node ids
struct Comp {
    std::vector<uint32_t> pid;  // page ids (0 = ignored), padded to FAN
    std::vector<uint32_t> l1, l2;
    uint32_t root = 0;
};
static std::vector<Comp> comps;
static int ci_mem(int p) { return p; }
static int ci_ps(int p) { return NPE + p; }
static int ci_gs() { return 2 * NPE; }
static int ci_stk(int p, int t) { return 2 * NPE + 1 + p * NT + t; }
bool dirty_stk[MAXPE][MAXT];

static uint64_t stk_top(int p, int t) { return STACK_BASE + (uint64_t) (p * MAXT + t + 1) * (STACK_SIZE * 2); }

// build the vector of page addresses (0 = ignore)
static std::vector<uint64_t> pa;
static std::vector<int32_t> plen;
static void comp_pages(int ci)
{
    pa.clear();
    if (ci < NPE) {
        int p = ci;
        for (uint64_t a = dso_lo[p]; a < dso_hi[p]; a += PG) pa.push_back(a);
        size_t n0 = pa.size();
        const PS &s = *ps[p];
        uint64_t base = ARENA_BASE + p * ARENA_STRIDE;
        for (int i = 0; i < s.nblk; i++) {
            if (!s.blk[i].live) continue;
            size_t lo = (s.blk[i].off - 16) / PG, hi = (s.blk[i].off + s.blk[i].size + 16 + PG - 1) / PG;
            if (pa.size() < n0 + hi) pa.resize(n0 + hi, 0);
            for (size_t k = lo; k < hi; k++) pa[n0 + k] = base + k * PG;
        }
    } else if (ci < 2 * NPE) {
        uint64_t b = (uint64_t) ps[ci - NPE];
        size_t n = offsetof(PS, blob.data) + ps[ci - NPE]->blob.used;
        size_t t0 = offsetof(PS, ty) + ps[ci - NPE]->tyhi * sizeof(Type), t1 = offsetof(PS, ty) + sizeof(((PS *) 0)->ty);
        size_t g0 = std::min((t0 + PG - 1) / PG * PG, t1), g1 = std::max(t1 / PG * PG, g0); // whole pages above tyhi are left out
        memset((void *) (b + t0), 0, g0 - t0);
        if (t1 > g1) memset((void *) (b + std::max(t0, g1)), 0, t1 - std::max(t0, g1));
        for (size_t o = 0; o < n; o += PG) pa.push_back(o >= g0 && o + PG <= g1 ? 0 : b + o);
    } else if (ci == 2 * NPE) {
        for (size_t o = 0; o < sizeof(GS); o += PG) pa.push_back((uint64_t) gs + o);
    } else {
        int k = ci - 2 * NPE - 1, p = k / NT, t = k % NT;
        const Co &c = ps[p]->co[t];
        if (c.wk == W_DEAD) return;
        uint64_t top = stk_top(p, t), sp = c.sp;
        uint64_t lo = sp & ~(uint64_t) (PG - 1);
        memset((void *) lo, 0, sp - lo);
        for (uint64_t a = top - PG; a >= lo; a -= PG) pa.push_back(a);
    }
}
static void comp_save(int ci)
{
    comp_pages(ci);
    Comp &c = comps[ci];
    size_t n = pa.size();
    size_t np = std::max<size_t>((n + FAN - 1) / FAN * FAN, c.pid.size());
    c.pid.resize(np, 0);
    size_t nb = np / FAN;
    size_t ob = c.l1.size();
    c.l1.resize((nb + FAN - 1) / FAN * FAN, zero_node[0]);
    bool any = ob != c.l1.size();
    size_t n2 = c.l1.size() / FAN;
    if (n2 > FAN) internal("component too large");
    if (c.l2.size() != FAN) { c.l2.assign(FAN, zero_node[1]); any = true; }
    std::vector<char> l2dirty(n2, any);
    for (size_t b = 0; b < nb; b++) {
        bool ch = false;
        for (size_t k = b * FAN; k < (b + 1) * FAN; k++) {
            uint64_t a = k < n ? pa[k] : 0;
            uint32_t id = c.pid[k];
            if (!a) { if (id) { c.pid[k] = 0; ch = true; } continue; }
            if (id && !memcmp(pages.at(id), (void *) a, PG)) continue;
            c.pid[k] = pages.put((void *) a);
            ch = true;
        }
        if (ch) { c.l1[b] = nodes.put(&c.pid[b * FAN]); l2dirty[b / FAN] = 1; any = true; }
    }
    if (!any) return;
    for (size_t b = 0; b < n2; b++) if (l2dirty[b]) c.l2[b] = nodes.put(&c.l1[b * FAN]);
    c.root = nodes.put(c.l2.data());
}
static void comp_restore(int ci, uint32_t root)
{
    Comp &c = comps[ci];
    if (c.root == root) return;
    const uint32_t *l2 = (const uint32_t *) nodes.at(root);
    // address function
    int kind = ci < NPE ? 0 : ci < 2 * NPE ? 1 : ci == 2 * NPE ? 2 : 3;
    size_t nd = 0; uint64_t base = 0, abase = 0;
    if (kind == 0) { nd = (dso_hi[ci] - dso_lo[ci]) / PG; base = dso_lo[ci]; abase = ARENA_BASE + ci * ARENA_STRIDE; }
    else if (kind == 1) base = (uint64_t) ps[ci - NPE];
    else if (kind == 2) base = (uint64_t) gs;
    else { int k = ci - 2 * NPE - 1; base = stk_top(k / NT, k % NT) - PG; }
    for (size_t i = 0; i < FAN; i++) {
        if (c.l2[i] == l2[i]) continue;
        if (c.l1.size() < (i + 1) * FAN) { c.l1.resize((i + 1) * FAN, zero_node[0]); }
        const uint32_t *l1 = (const uint32_t *) nodes.at(l2[i]);
        for (size_t j = 0; j < FAN; j++) {
            size_t b = i * FAN + j;
            if (c.l1[b] == l1[j]) continue;
            if (c.pid.size() < (b + 1) * FAN) c.pid.resize((b + 1) * FAN, 0);
            const uint32_t *ids = (const uint32_t *) nodes.at(l1[j]);
            for (size_t k = 0; k < FAN; k++) {
                size_t q = b * FAN + k;
                if (c.pid[q] == ids[k]) continue;
                c.pid[q] = ids[k];
                if (!ids[k]) continue;
                uint64_t a = kind == 0 ? (q < nd ? base + q * PG : abase + (q - nd) * PG) : kind == 3 ? base - q * PG : base + q * PG;
                memcpy((void *) a, pages.at(ids[k]), PG);
            }
            c.l1[b] = l1[j];
        }
        c.l2[i] = l2[i];
    }
    c.root = root;
}
static bool paranoid = getenv("OSHMC_PARANOID");
static uint32_t save_state(bool *fresh)
{
    if (paranoid) { memset(dirty_mem, 1, sizeof dirty_mem); memset(dirty_ps, 1, sizeof dirty_ps); memset(dirty_stk, 1, sizeof dirty_stk); dirty_gs = true; }
    for (int p = 0; p < NPE; p++) {
        if (dirty_mem[p]) comp_save(ci_mem(p)); // needs up-to-date block table (live in ps)
        if (dirty_ps[p]) comp_save(ci_ps(p));
        for (int t = 0; t < NT; t++) if (dirty_stk[p][t]) comp_save(ci_stk(p, t));
    }
    if (dirty_gs) comp_save(ci_gs());
    memset(dirty_mem, 0, sizeof dirty_mem); memset(dirty_ps, 0, sizeof dirty_ps); memset(dirty_stk, 0, sizeof dirty_stk); dirty_gs = false;
    std::vector<uint32_t> v(comps.size());
    for (size_t i = 0; i < comps.size(); i++) v[i] = comps[i].root;
    return states.put(v.data(), fresh);
}
static void restore_state(uint32_t id)
{
    // a component left dirty (not saved) has unknown page ids: save first so that the diff is exact
    bool d = dirty_gs;
    for (int p = 0; p < NPE; p++) { d |= dirty_mem[p] | dirty_ps[p]; for (int t = 0; t < NT; t++) d |= dirty_stk[p][t]; }
    if (d) {
        for (int p = 0; p < NPE; p++) {
            if (dirty_mem[p]) comp_save(ci_mem(p));
            if (dirty_ps[p]) comp_save(ci_ps(p));
            for (int t = 0; t < NT; t++) if (dirty_stk[p][t]) comp_save(ci_stk(p, t));
        }
        if (dirty_gs) comp_save(ci_gs());
        memset(dirty_mem, 0, sizeof dirty_mem); memset(dirty_ps, 0, sizeof dirty_ps); memset(dirty_stk, 0, sizeof dirty_stk); dirty_gs = false;
    }
    std::vector<uint32_t> v((uint32_t *) states.at(id), (uint32_t *) states.at(id) + comps.size());
    for (size_t i = 0; i < comps.size(); i++) comp_restore(i, v[i]);
}

// ------------------------------------------------------------------ arena
static uint64_t abase(int p) { return ARENA_BASE + p * ARENA_STRIDE; }
void *arena_alloc(int p, size_t n, size_t align, int kind)
{
    PS &s = P(p);
    dirty_mem[p] = true;
    if (align < 16) align = 16;
    if (kind == 3 && n > ARENA_SIZE / 4) {
        if (s.huge_len || n + 65536 > HUGE_STRIDE) internal("huge window");
        char *b = (char *) (HUGE_BASE + p * HUGE_STRIDE);
        s.huge_n = n; s.huge_len = (n + 4095) / 4096 * 4096;
        if (mmap(b, s.huge_len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0) == MAP_FAILED) internal("cannot map a huge window");
        return b;
    }
    if (n > ARENA_SIZE / 2) return nullptr;
    uint32_t sz = (n + 15) & ~15u;
    if (!sz) sz = 16;
    uint64_t skew = kind == 3 ? (uint64_t) cfg.skew * p : 0;
    uint64_t pos = 4096;
    int i = 0;
    auto place = [&](uint64_t q) { return (q + 16 + align - 1) / align * align + skew; };
    for (; i < s.nblk; i++) {
        if (!s.blk[i].live) continue;
        uint64_t o = place(pos);
        if (o + sz + 16 <= (uint64_t) s.blk[i].off - 16) break;
        pos = s.blk[i].off + s.blk[i].size + 16;
    }
    uint64_t o = place(pos);
    if (o + sz + 16 > ARENA_SIZE) internal("arena exhausted");
    if (s.nblk >= MAXBLK) internal("too many memory blocks");
    memmove(&s.blk[i + 1], &s.blk[i], sizeof(Blk) * (s.nblk - i));
    s.nblk++;
    // canonical content of pages that had no live block
    for (uint64_t pg = (o - 16) / PG; pg <= (o + sz + 15) / PG; pg++) {
        bool live = false;
        for (int k = 0; k < s.nblk; k++) if (k != i && s.blk[k].live && (s.blk[k].off - 16) / PG <= pg && (s.blk[k].off + s.blk[k].size + 15) / PG >= pg) live = true;
        if (!live) memset((void *) (abase(p) + pg * PG), 0xDD, PG);
    }
    s.blk[i].off = o; s.blk[i].size = sz; s.blk[i].live = kind; s.blk[i].pad = n;
    char *b = (char *) abase(p) + o;
    memset(b - 16, 0xFD, 16);
    memset(b, kind == 4 ? 0 : 0xCD, sz);
    memset(b + n, 0xFD, sz - n + 16);
    return b;
}
static int blk_find(int p, uint64_t a)
{
    const PS &s = *ps[p];
    for (int i = 0; i < s.nblk; i++) if (s.blk[i].live && abase(p) + s.blk[i].off == a) return i;
    return -1;
}
static void blk_check(int p, int i)
{
    const Blk &b = ps[p]->blk[i];
    const unsigned char *q = (const unsigned char *) abase(p) + b.off;
    for (int k = 1; k <= 16; k++) if (q[-k] != 0xFD) viol("memory corruption: PE %d wrote %d byte(s) before a heap block of %u bytes", p, k, b.pad);
    for (uint32_t k = b.pad; k < b.size + 16; k++) if (q[k] != 0xFD) viol("memory corruption: PE %d wrote %u byte(s) beyond a heap block of %u bytes", p, k - b.pad + 1, b.pad);
}
void arena_check(int p) { for (int i = 0; i < ps[p]->nblk; i++) if (ps[p]->blk[i].live) blk_check(p, i); }
void arena_free(int p, void *ptr)
{
    if ((uint64_t) ptr == HUGE_BASE + p * HUGE_STRIDE && ps[p]->huge_len) { munmap(ptr, ps[p]->huge_len); P(p).huge_len = P(p).huge_n = 0; return; }
    int i = blk_find(p, (uint64_t) ptr);
    if (i < 0) viol("memory corruption: PE %d frees an address that is not an allocated block (double or invalid free)", p);
    blk_check(p, i);
    PS &s = P(p);
    dirty_mem[p] = true;
    Blk b = s.blk[i];
    memset((char *) abase(p) + b.off - 16, 0xDD, b.size + 32);
    memmove(&s.blk[i], &s.blk[i + 1], sizeof(Blk) * (s.nblk - i - 1));
    memset(&s.blk[--s.nblk], 0, sizeof(Blk));
}
size_t arena_size(int p, void *ptr) { int i = blk_find(p, (uint64_t) ptr); return i < 0 ? 0 : ps[p]->blk[i].pad; }
bool mem_ok(int p, uint64_t a, size_t n)
{
    if (a >= dso_all_lo[p] && a + n <= dso_all_hi[p]) return true;
    for (int t = 0; t < NT; t++) if (a >= ps[p]->co[t].sp - (t == curT && p == cur ? STACK_SIZE : 0) && a + n <= stk_top(p, t) && a >= stk_top(p, t) - STACK_SIZE) return true;
    uint64_t b = HUGE_BASE + p * HUGE_STRIDE;
    if (ps[p]->huge_len && a >= b && a + n <= b + ps[p]->huge_n) return true;
    b = abase(p);
    if (a < b || a + n > b + ARENA_SIZE) return false;
    const PS &s = *ps[p];
    for (int i = 0; i < s.nblk; i++) if (s.blk[i].live && a >= b + s.blk[i].off && a + n <= b + s.blk[i].off + s.blk[i].pad) return true;
    return false;
}
int blob_new(int p, const void *d, int len)
{
    BlobPool &b = P(p).blob;
    if (b.used + len > BLOBCAP) internal("blob pool exhausted");
    for (int i = 0; i < MAXBLOB; i++)
        if (!b.e[i].live) {
            b.e[i].live = 1; b.e[i].off = b.used; b.e[i].len = len;
            if (len) memcpy(b.data + b.used, d, len);
            b.used += len;
            return i;
        }
    internal("too many blobs");
}
char *blob_ptr(int p, int i) { return ps[p]->blob.data + ps[p]->blob.e[i].off; }
int blob_len(int p, int i) { return ps[p]->blob.e[i].len; }
void blob_del(int p, int i)
{
    BlobPool &b = P(p).blob;
    int off = b.e[i].off, len = b.e[i].len;
    memmove(b.data + off, b.data + off + len, b.used - off - len);
    memset(b.data + b.used - len, 0, len);
    b.used -= len;
    memset(&b.e[i], 0, sizeof b.e[i]);
    for (int k = 0; k < MAXBLOB; k++) if (b.e[k].live && b.e[k].off > off) b.e[k].off -= len;
}

// ------------------------------------------------------------------ libc stand-ins
C void *__wrap_malloc(size_t n) { return arena_alloc(cur, n, 16, 1); }
C void *__wrap_calloc(size_t a, size_t b) { void *p = arena_alloc(cur, a * b, 16, 1); if (p) memset(p, 0, a * b); return p; }
C void __wrap_free(void *p) { if (p) arena_free(cur, p); }
C void *__wrap_realloc(void *p, size_t n)
{
    void *q = arena_alloc(cur, n, 16, 1);
    if (p) { memcpy(q, p, std::min(n, arena_size(cur, p))); arena_free(cur, p); }
    return q;
}
C int __wrap_posix_memalign(void **p, size_t a, size_t n) { *p = arena_alloc(cur, n, a, 1); return 0; }
C void *__wrap_aligned_alloc(size_t a, size_t n) { return arena_alloc(cur, n, a, 1); }
C char *__wrap_strdup(const char *s) { char *p = (char *) __wrap_malloc(strlen(s) + 1); strcpy(p, s); return p; }
C char *__wrap_getenv(const char *k)
{
    // the strings live in the PE's state: the program may modify them
    size_t n = strlen(k);
    int fr = -1;
    for (int i = 0; i < 10; i++) { char *e = ps[cur]->envs[i]; if (!*e) { if (fr < 0) fr = i; } else if (!strncmp(e, k, n) && e[n] == '=') return P(cur).envs[i] + n + 1; }
    auto it = cfg.env.find(k);
    if (it == cfg.env.end()) return nullptr;
    mc_setenv(k, it->second.c_str());
    return P(cur).envs[fr] + n + 1;
}
C void mc_setenv(const char *k, const char *v)
{
    size_t n = strlen(k);
    int s = -1;
    for (int i = 0; i < 10; i++) { char *e = ps[cur]->envs[i]; if (*e ? !strncmp(e, k, n) && e[n] == '=' : s < 0) { s = i; if (*e) break; } }
    if (s < 0 || n + strlen(v) + 2 > 200) internal("environment");
    memset(P(cur).envs[s], 0, 200);
    snprintf(P(cur).envs[s], 200, "%s=%s", k, v);
}
C long __wrap_sysconf(int n) { return n == _SC_PAGESIZE ? cfg.page : sysconf(n); }
C int __wrap_getpagesize(void) { return cfg.page; }
C void *__wrap_mmap(void *, size_t n, int, int fl, int, off_t) { if ((fl & MAP_FIXED) && cfg.dyn_asym) return MAP_FAILED; void *p = arena_alloc(cur, n, 4096, 4); return p ? p : MAP_FAILED; }
C int __wrap_munmap(void *p, size_t) { if (blk_find(cur, (uint64_t) p) < 0) return -1; arena_free(cur, p); return 0; }
C int __wrap_msync(void *, size_t, int) { errno = ENOMEM; return -1; }
C int __wrap_gettimeofday(struct timeval *t, void *) { t->tv_sec = 1000; t->tv_usec = 0; return 0; }
C time_t __wrap_time(time_t *t) { if (t) *t = 1000; return 1000; }
C int __wrap_atexit(void (*f)(void)) { PS &s = P(cur); if (s.natexit >= MAXATEXIT) internal("atexit"); s.atexit_fn[s.natexit++] = (uint64_t) f; return 0; }
C void __wrap_abort(void) { viol("the library called abort()"); }
C void __wrap_exit(int)
{
    if (ps[cur]->expect_abort) { P(cur).exited = 2; P(cur).co[curT].wk = W_DEAD; co_yield_(); }
    viol("the library called exit()");
}
C void __wrap___assert_fail(const char *e, const char *f, unsigned l, const char *fn)
{
    const char *b = strrchr(f, '/');
    viol("assertion '%s' failed in %s (%s:%u)", e, fn, b ? b + 1 : f, l);
}
C int __wrap_usleep(unsigned) { return 0; }
C int __wrap_sched_yield(void) { return 0; }

// ------------------------------------------------------------------ coroutines
C void mc_switch(void **save, void *to);
asm(".text\n.globl mc_switch\nmc_switch:\n push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n"
    " mov %rsp,(%rdi)\n mov %rsi,%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n");
static void *main_sp;
typedef void (*scen_fn)(void);
static scen_fn scen_entry[MAXPE];

void co_yield_()
{
    int p = cur, t = curT;
    dirty_stk[p][t] = true; dirty_ps[p] = true; dirty_mem[p] = true;
    mc_switch((void **) &ps[p]->co[t].sp, main_sp);
}
void sched_ready()
{
    Co &k = P(cur).co[curT];
    k.wk = W_READY;
    co_yield_();
}
static void co_main()
{
    int p = cur, t = curT;
    if (t == 0) {
        scen_entry[p]();
        P(p).in_atexit = 1;
        while (ps[p]->natexit > 0) { int i = --P(p).natexit; ((void (*)(void)) ps[p]->atexit_fn[i])(); P(p).atexit_fn[i] = 0; }
        P(p).exited = 1;
    } else {
        Co &k = P(p).co[t];
        void *(*f)(void *) = (void *(*)(void *)) k.fn;
        f((void *) k.arg);
    }
    Co &k = P(p).co[t];
    memset(&k, 0, sizeof k);
    k.wk = W_DEAD;
    dirty_stk[p][t] = true; dirty_mem[p] = true;
    static void *dummy;
    mc_switch(&dummy, main_sp);
    abort();
}
static void co_setup(int p, int t)
{
    Co &k = P(p).co[t];
    uint64_t *sp = (uint64_t *) stk_top(p, t);
    *--sp = 0;          // alignment / fake return address
    *--sp = (uint64_t) co_main;
    for (int i = 0; i < 6; i++) *--sp = 0;
    k.sp = (uint64_t) sp;
    k.wk = W_READY;
    dirty_stk[p][t] = true;
}
int spawn_co(int pe, void *(*fn)(void *), void *arg)
{
    for (int t = 1; t < NT; t++)
        if (ps[pe]->co[t].wk == W_DEAD) {
            memset(&P(pe).co[t], 0, sizeof(Co));
            co_setup(pe, t);
            P(pe).co[t].fn = (uint64_t) fn; P(pe).co[t].arg = (uint64_t) arg;
            return t;
        }
    internal("too many threads (use --threads)");
}

// ------------------------------------------------------------------ scenario API
C int mc_pe(void) { return cur; }
C int mc_npes(void) { return NPE; }
C int mc_model(void) { return 1; }
C long mc_arg(const char *n, long d) { auto i = cfg.arg.find(n); return i == cfg.arg.end() ? d : i->second; }
C int mc_choose(int n) { if (n <= 1) return 0; Co &k = P(cur).co[curT]; k.wk = W_CHOOSE; k.n = n; co_yield_(); TR("PE%d.%d choose -> %d of %d", cur, curT, ps[cur]->co[curT].choice, n); int c = ps[cur]->co[curT].choice; P(cur).co[curT].choice = 0; return c; }
C int mc_choose_all(int n) { Co &k = P(cur).co[curT]; k.wk = W_CHOOSEALL; k.n = n; co_yield_(); int c = ps[cur]->co[curT].choice; P(cur).co[curT].choice = 0; return c; }
C void mc_point(void) { sched_ready(); }
C void mc_fail(const char *f, ...) { va_list a; va_start(a, f); std::string s = vfmt(f, a); va_end(a); viol("PE %d: %s", cur, s.c_str()); }
C void mc_begin(void) { P(cur).co[curT].wk = W_BEGIN; co_yield_(); }
C void mc_end(void) { P(cur).co[curT].wk = W_END; co_yield_(); }
static void gchk(int i) { if (i < 0 || i >= NGHOST) internal("ghost index"); }
C int64_t mc_ghost(int i) { gchk(i); return gs->ghost[i]; }
C void mc_ghost_set(int i, int64_t v) { gchk(i); TR("PE%d ghost[%d]=%ld", cur, i, (long) v); G().ghost[i] = v; }
C int64_t mc_ghost_add(int i, int64_t v) { gchk(i); TR("PE%d ghost[%d]+=%ld", cur, i, (long) v); return G().ghost[i] += v; }
C void mc_await(int i, int64_t v) { Co &k = P(cur).co[curT]; k.wk = W_GHOST; k.a = i; k.val = v; co_yield_(); }
C void mc_obs(int i, int64_t v) { if (i < 0 || i >= NOBS) internal("obs index"); TR("PE%d obs[%d]=%ld", cur, i, (long) v); P(cur).obs[i] = v; }
C int64_t mc_get_obs(int p, int i) { return ps[p]->obs[i]; }
C void mc_leakcheck(void) { P(cur).leakcheck = 1; }
C void mc_expect_abort(void) { P(cur).expect_abort = 1; }

// ------------------------------------------------------------------ stepping
enum { X_CO = 0, X_OP = 1, X_MSG = 2, X_ALL = 3 };
static uint32_t enc(int k, int a, int b, int c) { return k << 28 | a << 20 | b << 12 | c; }
static char altstk[65536];
static void on_sig(int s, siginfo_t *si, void *uc)
{
    if (s == SIGVTALRM) {
        static long last = -1; static int same;
        if (!in_step) return;
        if (last == step_no) { if (++same >= 4) { viol_msg = "PE " + std::to_string(cur) + " spins without making progress in a loop that never yields to the communication layer"; same = 0; siglongjmp(step_jmp, 2); } }
        else { last = step_no; same = 0; }
        return;
    }
    if (!in_step) { const char *m = "INTERNAL crash in explorer\n"; (void) !write(logfd, m, strlen(m)); _exit(3); }
    char b[200];
    if (getenv("OSHMC_CRASH")) dprintf(logfd, "crash at pc %p (dso %lx) addr %p\n", (void *) ((ucontext_t *) uc)->uc_mcontext.gregs[REG_RIP], (unsigned long) ((ucontext_t *) uc)->uc_mcontext.gregs[REG_RIP] - dso_all_lo[cur < 0 ? 0 : cur], si->si_addr);
    snprintf(b, sizeof b, "crash: signal %d (%s) in PE %d%s", s, strsignal(s), cur, s == SIGSEGV && si->si_addr == nullptr ? ", null pointer" : "");
    viol_msg = b;
    siglongjmp(step_jmp, 2);
}
// returns true if fine, false on violation (viol_msg)
template <class F> static bool guarded(F f)
{
    if (sigsetjmp(step_jmp, 1)) { in_step = 0; cur = -1; curT = 0; return false; }
    step_no++;
    in_step = 1;
    f();
    in_step = 0;
    cur = -1; curT = 0;
    return true;
}
static bool do_trans(uint32_t x)
{
    int k = x >> 28, a = x >> 20 & 255, b = x >> 12 & 255, c = x & 4095;
    return guarded([&] {
        if (k == X_CO) {
            cur = a; curT = b;
            Co &q = P(a).co[b];
            q.choice = q.wk == W_CHOOSE ? c : q.choice;
            q.wk = W_READY; q.winsync = 0;
            q.n = 0; q.ptr = 0; q.val = 0;
            dirty_mem[a] = true; dirty_stk[a][b] = true;
            mc_switch(&main_sp, (void *) q.sp);
        } else if (k == X_OP) env_op_apply(a, b);
        else if (k == X_MSG) env_msg_deliver(a, b);
        else for (int p = 0; p < NPE; p++) for (int t = 0; t < NT; t++) if (ps[p]->co[t].wk == W_CHOOSEALL) { Co &q = P(p).co[t]; q.choice = c; q.wk = W_READY; TR("choose_all -> %d of %d", c, q.n); }
    });
}
static void all_trans(std::vector<uint32_t> &v)
{
    v.clear();
    for (int p = 0; p < NPE; p++)
        for (int t = 0; t < NT; t++) {
            const Co &k = ps[p]->co[t];
            if (k.wk == W_CHOOSE) for (int c = 0; c < k.n; c++) v.push_back(enc(X_CO, p, t, c));
            else if (co_enabled(p, t)) v.push_back(enc(X_CO, p, t, 0));
        }
    for (int p = 0; p < NPE; p++) for (int i = 0; i < ps[p]->nop; i++) if (env_op_enabled(p, i) && !env_op_skip(p, i)) v.push_back(enc(X_OP, p, i, 0));
    for (int p = 0; p < NPE; p++) for (int i = 0; i < ps[p]->nmsg; i++) if (env_msg_enabled(p, i)) v.push_back(enc(X_MSG, p, i, 0));
}
static int count_wk(int wk) { int n = 0; for (int p = 0; p < NPE; p++) for (int t = 0; t < NT; t++) n += ps[p]->co[t].wk == wk; return n; }
static bool all_done() { for (int p = 0; p < NPE; p++) if (!ps[p]->exited) return false; return true; }
static long det_steps;
static bool first_env(uint32_t *x)
{
    for (int p = 0; p < NPE; p++) for (int i = 0; i < ps[p]->nmsg; i++) if (env_msg_enabled(p, i)) { *x = enc(X_MSG, p, i, 0); return true; }
    for (int p = 0; p < NPE; p++) for (int i = 0; i < ps[p]->nop; i++) if (env_op_enabled(p, i)) { *x = enc(X_OP, p, i, 0); return true; }
    return false;
}
static bool last_env(uint32_t *x) // newest first, remote memory operations before messages
{
    for (int p = NPE - 1; p >= 0; p--) for (int i = ps[p]->nop - 1; i >= 0; i--) if (env_op_enabled(p, i)) { *x = enc(X_OP, p, i, 0); return true; }
    for (int p = NPE - 1; p >= 0; p--) for (int i = ps[p]->nmsg - 1; i >= 0; i--) if (env_msg_enabled(p, i)) { *x = enc(X_MSG, p, i, 0); return true; }
    return false;
}
static bool next_co(uint32_t *x)
{
    int n = NPE * NT;
    for (int k = 0; k < n; k++) {
        int j = (gs->rr + k) % n;
        if (ps[j / NT]->co[j % NT].wk != W_CHOOSE && co_enabled(j / NT, j % NT)) { *x = enc(X_CO, j / NT, j % NT, 0); G().rr = (j + 1) % n; return true; }
    }
    return false;
}
enum Settle { S_BRANCH, S_TERM, S_VIOL };
static std::string where()
{
    static const char *nm[] = { "finished", "running", "MPI wait (request)", "MPI wait-any", "MPI probe", "collective object construction", "choice", "choice", "begin", "end", "ghost", "mutex", "condition variable", "thread join", "MPI_Finalize" };
    std::string s;
    for (int p = 0; p < NPE; p++) for (int t = 0; t < NT; t++) { const Co &k = ps[p]->co[t]; if (k.wk == W_DEAD && t) continue; s += " PE" + std::to_string(p) + (t ? "." + std::to_string(t) : "") + "=" + nm[k.wk]; }
    return s;
}
static Settle settle(std::vector<uint32_t> &tr)
{
    long steps = 0;
    bool lifo = cfg.sched == "lifo", lazy = lifo || cfg.sched == "lazy", rr = cfg.sched == "rr";
    int phase = 0;
    for (;;) {
        if (all_done()) {
            bool ok = guarded([] { mock_final_check(); });
            return ok ? S_TERM : S_VIOL;
        }
        if (count_wk(W_BEGIN) == NPE) { for (int p = 0; p < NPE; p++) for (int t = 0; t < NT; t++) if (ps[p]->co[t].wk == W_BEGIN) P(p).co[t].wk = W_READY; G().explore = cfg.sched == "explore"; }
        if (count_wk(W_END) == NPE) { for (int p = 0; p < NPE; p++) for (int t = 0; t < NT; t++) if (ps[p]->co[t].wk == W_END) P(p).co[t].wk = W_READY; G().explore = 0; }
        if (count_wk(W_CHOOSEALL) == NPE) {
            int n = 0;
            for (int p = 0; p < NPE; p++) for (int t = 0; t < NT; t++) if (ps[p]->co[t].wk == W_CHOOSEALL) n = ps[p]->co[t].n;
            tr.clear();
            for (int c = 0; c < n; c++) tr.push_back(enc(X_ALL, 0, 0, c));
            G().rr = 0;
            return S_BRANCH;
        }
        if (gs->explore) {
            all_trans(tr);
            if (tr.empty()) { viol_msg = "deadlock:" + where(); return S_VIOL; }
            return S_BRANCH;
        }
        for (int p = 0; p < NPE; p++) for (int t = 0; t < NT; t++) if (ps[p]->co[t].wk == W_CHOOSE) {
            tr.clear();
            for (int c = 0; c < ps[p]->co[t].n; c++) tr.push_back(enc(X_CO, p, t, c));
            G().rr = 0;
            return S_BRANCH;
        }
        uint32_t x;
        bool got = false;
        if (lazy) { if (phase++ % (NPE * NT * 3 + 1) != NPE * NT * 3) got = next_co(&x); if (!got) got = lifo ? last_env(&x) : first_env(&x); if (!got) got = next_co(&x); }
        else if (rr) { if (phase++ & 1) got = first_env(&x); if (!got) got = next_co(&x); if (!got) got = first_env(&x); }
        else { got = first_env(&x); if (!got) got = next_co(&x); }
        if (!got) { viol_msg = "deadlock:" + where(); return S_VIOL; }
        det_steps++;
        if (++steps > cfg.max_steps) { viol_msg = "no termination: the program still runs after " + std::to_string(steps) + " scheduling steps under a fair schedule:" + where(); return S_VIOL; }
        if (!do_trans(x)) return S_VIOL;
    }
}

// ------------------------------------------------------------------ loading
static int find_cb(dl_phdr_info *i, size_t, void *v)
{
    auto *q = (std::pair<uint64_t, int> *) v;
    if (i->dlpi_addr != q->first) return 0;
    int p = q->second;
    dso_all_lo[p] = UINT64_MAX;
    for (int k = 0; k < i->dlpi_phnum; k++) {
        auto &h = i->dlpi_phdr[k];
        if (h.p_type == PT_GNU_RELRO) internal("RELRO in the library image");
        if (h.p_type != PT_LOAD) continue;
        uint64_t lo = i->dlpi_addr + h.p_vaddr, hi = lo + h.p_memsz;
        dso_all_lo[p] = std::min(dso_all_lo[p], lo); dso_all_hi[p] = std::max(dso_all_hi[p], hi);
        if (h.p_flags & PF_W) { if (dso_lo[p]) internal("two writable segments"); dso_lo[p] = lo & ~(uint64_t) (PG - 1); dso_hi[p] = (hi + PG - 1) & ~(uint64_t) (PG - 1); }
    }
    return 1;
}
static void load(const char *so)
{
    FILE *f = fopen(so, "rb");
    if (!f) internal("cannot open %s", so);
    std::string d;
    char b[65536];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) d.append(b, n);
    fclose(f);
    for (int p = 0; p < NPE; p++) {
        int fd = memfd_create("lib", 0);
        char path[300];
        if (fd < 0) internal("memfd_create failed");
        for (size_t o = 0; o < d.size();) { ssize_t k = write(fd, d.data() + o, d.size() - o); if (k <= 0) internal("write"); o += k; }
        snprintf(path, sizeof path, "/proc/self/fd/%d", fd);
        dso[p] = dlopen(path, RTLD_NOW | RTLD_LOCAL);
        if (!dso[p]) { std::string e1 = dlerror(); internal("dlopen: %s", e1.c_str()); }
        link_map *lm;
        dlinfo(dso[p], RTLD_DI_LINKMAP, &lm);
        std::pair<uint64_t, int> q(lm->l_addr, p);
        dl_iterate_phdr(find_cb, &q);
        auto find = (scen_fn (*)(const char *)) dlsym(dso[p], "mc_find_scenario");
        if (!find) internal("no mc_find_scenario");
        scen_entry[p] = find(scen_name.c_str());
        if (!scen_entry[p]) internal("unknown scenario %s", scen_name.c_str());
    }
}
static std::string jesc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }

int main(int argc, char **argv)
{
    std::string so, replay_out, replay_in;
    std::vector<std::string> rawargs(argv + 1, argv + argc);
    bool verbose = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { if (++i >= argc) { fprintf(stderr, "missing value for %s\n", a.c_str()); exit(3); } return argv[i]; };
        if (a == "--so") so = val();
        else if (a == "--scen") scen_name = val();
        else if (a == "--npe") cfg.npe = atoi(val().c_str());
        else if (a == "--ppn") cfg.ppn = atoi(val().c_str());
        else if (a == "--rndv") cfg.rndv = 1;
        else if (a == "--yield-all") cfg.yield_all = 1;
        else if (a == "--threads") NT = atoi(val().c_str());
        else if (a == "--tag-ub") cfg.tag_ub = atoi(val().c_str());
        else if (a == "--strict-acc") cfg.strict |= 3;
        else if (a == "--strict-hint") cfg.strict |= 2;
        else if (a == "--split-acc") cfg.split = 1;
        else if (a == "--maxlevel") cfg.maxlevel = atoi(val().c_str());
        else if (a == "--max-comm") { cfg.max_comm = atoi(val().c_str()); if (cfg.max_comm > MAXCOMM) cfg.max_comm = MAXCOMM; }
        else if (a == "--page") cfg.page = atol(val().c_str());
        else if (a == "--skew") cfg.skew = atol(val().c_str());
        else if (a == "--sched") cfg.sched = val();
        else if (a == "--max-states") cfg.max_states = atol(val().c_str());
        else if (a == "--max-secs") cfg.max_secs = atof(val().c_str());
        else if (a == "--max-steps") cfg.max_steps = atol(val().c_str());
        else if (a == "--max-mem") cfg.max_mem_mb = atol(val().c_str());
        else if (a == "--env") { std::string v = val(); size_t e = v.find('='); cfg.env[v.substr(0, e)] = v.substr(e + 1); }
        else if (a == "--arg") { std::string v = val(); size_t e = v.find('='); cfg.arg[v.substr(0, e)] = atol(v.substr(e + 1).c_str()); }
        else if (a == "--out") outpath = val();
        else if (a == "--replay-out") replay_out = val();
        else if (a == "--choices") replay_in = val();
        else if (a == "--verbose") verbose = true;
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
    }
    NPE = cfg.npe;
    if (NPE < 1 || NPE > MAXPE || NT < 1 || NT > MAXT) { fprintf(stderr, "bad --npe/--threads\n"); return 3; }
    t0 = now();
    logfd = dup(1);
    if (!verbose) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); }
    rlimit rl = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    for (int p = 0; p < NPE; p++) {
        if (mmap((void *) abase(p), ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) == MAP_FAILED) internal("cannot map the arena");
        for (int t = 0; t < NT; t++)
            if (mmap((void *) (stk_top(p, t) - STACK_SIZE), STACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) == MAP_FAILED) internal("cannot map a stack");
        ps[p] = (PS *) mmap(nullptr, sizeof(PS) + PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    }
    gs = (GS *) mmap(nullptr, sizeof(GS) + PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    load(so.c_str());
    stack_t ss = {};
    ss.ss_sp = altstk; ss.ss_size = sizeof altstk;
    sigaltstack(&ss, nullptr);
    struct sigaction sa = {};
    sa.sa_sigaction = on_sig;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM }) sigaction(s, &sa, nullptr);
    itimerval itv = { { 1, 0 }, { 1, 0 } };
    setitimer(ITIMER_VIRTUAL, &itv, nullptr);

    pages.init(PG); nodes.init(FAN * 4);
    comps.resize(2 * NPE + 1 + NPE * NT);
    states.init(comps.size() * 4);
    { char z[PG]; memset(z, 0xA5, PG); pages.put(z); } // id 0 is reserved
    { uint32_t z[FAN] = { 0 }; zero_node[0] = nodes.put(z); for (auto &q : z) q = zero_node[0]; zero_node[1] = nodes.put(z); for (auto &q : z) q = zero_node[1]; zero_node[2] = nodes.put(z); }
    for (auto &c : comps) { c.l2.assign(FAN, zero_node[1]); c.root = zero_node[2]; }
    mock_init();
    for (int p = 0; p < NPE; p++) { co_setup(p, 0); dirty_ps[p] = dirty_mem[p] = true; }
    uint32_t init = save_state(nullptr);

    // ---- replay
    auto run_choices = [&](const std::vector<uint32_t> &ch) -> bool { // true if a violation occurs
        restore_state(init);
        g_trace = true; tracelog.clear();
        std::vector<uint32_t> tr;
        size_t k = 0;
        for (;;) {
            Settle s = settle(tr);
            if (s == S_VIOL) return true;
            if (s == S_TERM || k >= ch.size()) return false;
            uint32_t x = ch[k++];
            if (std::find(tr.begin(), tr.end(), x) == tr.end()) { viol_msg = "replay diverged"; return false; }
            if (!do_trans(x)) return true;
        }
    };
    if (!replay_in.empty()) {
        std::vector<uint32_t> ch;
        FILE *f = fopen(replay_in.c_str(), "r");
        if (!f) internal("cannot read %s", replay_in.c_str());
        unsigned long x;
        while (fscanf(f, "%lu", &x) == 1) ch.push_back(x);
        fclose(f);
        bool v = run_choices(ch);
        for (auto &l : tracelog) dprintf(logfd, "%s\n", l.c_str());
        dprintf(logfd, "%s %s\n", v ? "VIOLATED" : "END-OF-CHOICES", v ? viol_msg.c_str() : where().c_str());
        return v ? 1 : 0;
    }

    // ---- breadth-first search
    std::vector<uint32_t> parent, choice, depth;
    std::vector<std::pair<uint32_t, uint32_t>> edges;
    std::vector<char> flag; // 1 = terminal or unexplored
    std::vector<uint32_t> sid_of; // search node -> state id (node index == order of discovery)
    std::vector<int64_t> node_of; // state id -> node
    std::set<std::string> outcomes;
    long ntrans = 0, nterm = 0, maxdepth = 0;
    bool capped = false, found = false;
    std::vector<uint32_t> path;
    auto add = [&](uint32_t sid, uint32_t par, uint32_t ch, bool term) -> uint32_t {
        if (node_of.size() <= sid) node_of.resize(sid + 1, -1);
        if (node_of[sid] >= 0) return node_of[sid];
        uint32_t n = sid_of.size();
        node_of[sid] = n;
        sid_of.push_back(sid); parent.push_back(par); choice.push_back(ch); flag.push_back(term);
        depth.push_back(par == UINT32_MAX ? 0 : depth[par] + 1);
        maxdepth = std::max<long>(maxdepth, depth[n]);
        return n;
    };
    auto get_path = [&](uint32_t n) { std::vector<uint32_t> v; while (n != UINT32_MAX && parent[n] != UINT32_MAX) { v.push_back(choice[n]); n = parent[n]; } std::reverse(v.begin(), v.end()); return v; };
    auto record = [&] {
        nterm++;
        if (outcomes.size() >= 20000) return;
        std::string o;
        for (int p = 0; p < NPE; p++) { o += p ? "|" : ""; int n = NOBS; while (n > 0 && !ps[p]->obs[n - 1]) n--; for (int i = 0; i < n; i++) o += (i ? "," : "") + std::to_string(ps[p]->obs[i]); }
        outcomes.insert(o);
    };
    std::vector<uint32_t> tr;
    Settle s0 = settle(tr);
    if (s0 == S_VIOL) found = true;
    else { if (s0 == S_TERM) record(); add(save_state(nullptr), UINT32_MAX, 0, s0 == S_TERM); }
    std::string vmsg;
    if (found) vmsg = viol_msg;
    for (uint32_t n = 0; !found && n < sid_of.size(); n++) {
        if (flag[n]) continue;
        if ((n & 255) == 0 && ((long) sid_of.size() > cfg.max_states || now() - t0 > cfg.max_secs || (pages.bytes() + nodes.bytes() + states.bytes() + edges.size() * 8 + sid_of.size() * 25) >> 20 > (size_t) cfg.max_mem_mb)) {
            capped = true;
            for (uint32_t k = n; k < sid_of.size(); k++) flag[k] = 1;
            break;
        }
        restore_state(sid_of[n]);
        settle(tr); // recomputes the branch list; the state is already settled
        std::vector<uint32_t> cand = tr;
        for (size_t i = 0; i < cand.size(); i++) {
            if (i) restore_state(sid_of[n]);
            ntrans++;
            Settle s = S_VIOL;
            if (do_trans(cand[i])) s = settle(tr);
            if (s == S_VIOL) { found = true; vmsg = viol_msg; path = get_path(n); path.push_back(cand[i]); break; }
            if (s == S_TERM) record();
            uint32_t m = add(save_state(nullptr), n, cand[i], s == S_TERM);
            if (m != n) edges.push_back({ n, m });
        }
        if (found) break;
    }
    if (!found) {
        // from every state some continuation must terminate
        size_t N = sid_of.size();
        std::vector<uint32_t> start(N + 1, 0), src(edges.size());
        for (auto &e : edges) start[e.second + 1]++;
        for (size_t i = 0; i < N; i++) start[i + 1] += start[i];
        std::vector<uint32_t> pos(start.begin(), start.end() - 1);
        for (auto &e : edges) src[pos[e.second]++] = e.first;
        std::vector<char> ok(N, 0);
        std::vector<uint32_t> q;
        for (size_t i = 0; i < N; i++) if (flag[i]) { ok[i] = 1; q.push_back(i); }
        while (!q.empty()) { uint32_t x = q.back(); q.pop_back(); for (uint32_t k = start[x]; k < start[x + 1]; k++) if (!ok[src[k]]) { ok[src[k]] = 1; q.push_back(src[k]); } }
        for (size_t i = 0; i < N; i++)
            if (!ok[i]) {
                found = true;
                restore_state(sid_of[i]);
                vmsg = "livelock: no continuation of this execution ever terminates:" + where();
                path = get_path(i);
                break;
            }
    }
    bool live = vmsg.rfind("livelock", 0) == 0;
    bool confirmed = false;
    if (found) {
        std::string m1 = vmsg;
        bool v = run_choices(path);
        confirmed = live ? (!v && viol_msg != "replay diverged") : (v && viol_msg == m1);
        if (!confirmed) internal("violation '%s' did not reproduce on replay (%s)", m1.c_str(), viol_msg.c_str());
        if (!replay_out.empty()) {
            FILE *f = fopen(replay_out.c_str(), "w");
            if (f) {
                fprintf(f, "{\"message\":\"%s\",\n \"args\":[", jesc(vmsg).c_str());
                bool first = true;
                for (size_t i = 0; i < rawargs.size(); i++) {
                    if (rawargs[i] == "--out" || rawargs[i] == "--replay-out" || rawargs[i] == "--so") { i++; continue; }
                    fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(rawargs[i]).c_str()); first = false;
                }
                fprintf(f, "],\n \"choices\":[");
                for (size_t i = 0; i < path.size(); i++) fprintf(f, "%s%u", i ? "," : "", path[i]);
                fprintf(f, "],\n \"trace\":[\n");
                size_t st = tracelog.size() > 400 ? tracelog.size() - 400 : 0;
                for (size_t i = st; i < tracelog.size(); i++) fprintf(f, "%s  \"%s\"", i > st ? ",\n" : "", jesc(tracelog[i]).c_str());
                fprintf(f, "]}\n");
                fclose(f);
            }
        }
    }
    double wall = now() - t0;
    std::string oc;
    size_t k = 0;
    for (auto &o : outcomes) { if (k++ >= 400) break; oc += (oc.empty() ? "\"" : ",\"") + jesc(o) + "\""; }
    char buf[1024];
    snprintf(buf, sizeof buf, "\"states\":%zu,\"transitions\":%ld,\"det_steps\":%ld,\"terminals\":%ld,\"depth\":%ld,\"exhaustive\":%s,\"outcomes_n\":%zu,\"wall\":%.2f,\"mem_mb\":%zu",
             sid_of.size(), ntrans, det_steps, nterm, maxdepth, capped ? "false" : "true", outcomes.size(), wall, (pages.bytes() + nodes.bytes() + states.bytes()) >> 20);
    if (!outpath.empty()) {
        FILE *f = fopen(outpath.c_str(), "w");
        if (f) { fprintf(f, "{\"status\":\"%s\",%s,\"message\":\"%s\",\"outcomes\":[%s]}\n", found ? "violation" : "ok", buf, jesc(vmsg).c_str(), oc.c_str()); fclose(f); }
    }
    dprintf(logfd, "%s %s {%s}%s%s\n", found ? "VIOL" : "OK", scen_name.c_str(), buf, found ? " " : "", vmsg.c_str());
    _exit(found ? 1 : 0);
}
