// Explorer core: state layout shared by the simulated MPI (mockmpi.cpp) and the search (explore.cpp).
#pragma once
#include "mpi.h"
#include "mc.h"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>

enum { MAXPE = 9, MAXT = 4, MAXREQ = 24, MAXTYPE = 1024, MAXOP = 40, MAXMSG = 24, MAXGRP = 40, MAXINFO = 6,
       MAXBLK = 704, MAXBLOB = 96, BLOBCAP = 1024 * 1024, MAXCOMM = 104, MAXWIN = 24, MAXINST = 16, MAXCONS = 6, NGHOST = 32,
       NOBS = 12, MAXATEXIT = 8, MAXMUTEX = 24, MAXREG = 8 };
const uint64_t ARENA_BASE = 0x200000000000ull, ARENA_STRIDE = 0x10000000ull, ARENA_SIZE = 0x4000000ull;
const uint64_t HUGE_BASE = 0x400000000000ull, HUGE_STRIDE = 0x80000000000ull; // 8 TB per PE
const uint64_t STACK_BASE = 0x300000000000ull, STACK_SIZE = 256 * 1024;

struct BlobPool {
    int32_t used, n;
    struct { int32_t off, len, live; } e[MAXBLOB];
    char data[BLOBCAP];
};

// wait descriptor kinds
enum WK : int32_t {
    W_DEAD = 0,     // coroutine slot unused / finished
    W_READY,        // at a plain scheduling point (always enabled)
    W_WAIT,         // all requests in array done
    W_WAITANY,      // any request done
    W_PROBE,        // message available
    W_CONS,         // constructor rendezvous complete
    W_CHOOSE,       // choice pending
    W_CHOOSEALL,    // collective choice
    W_BEGIN, W_END, // explore-mode rendezvous
    W_GHOST,        // ghost i >= v
    W_MUTEX,        // mutex free
    W_COND,         // signalled
    W_JOIN,         // thread finished
    W_FIN           // MPI_Finalize rendezvous
};
struct Co {
    uint64_t sp;
    int32_t wk, n;
    uint64_t ptr;
    int64_t val;
    int32_t a, b, c, choice;
    uint64_t fn, arg, ret;
    int32_t joinable, winsync;
};
enum RK : int8_t { R_FREE = 0, R_SEND, R_RECV, R_COLL, R_CONS, R_RMA };
struct Req {
    int8_t kind, done, cancelled, released;
    int32_t comm, src, tag;
    uint64_t buf;
    int32_t cnt, type;
    int32_t st_src, st_tag, st_cnt;
    int32_t inst;
    int32_t ord;        // order of posting among posted receives
    uint64_t x, y;      // receive counts / displacements (v-collectives)
};
enum TK : int8_t { T_FREE = 0, T_CONTIG, T_HVEC, T_RESIZED, T_DUP };
struct Type {
    int8_t kind, committed, freed, pad;
    int32_t refs, old, count, bl;
    int64_t stride, lb, ext, size;
};
enum OK_ : int8_t { O_FREE = 0, O_PUT, O_GET, O_ACC, O_GACC, O_FOP, O_CAS };
struct Op {
    int8_t kind, applied, mop, half; // half: an accumulate that has read the old value (in rblob) and not written yet
    int32_t win, target;
    int32_t ocnt, otype, rcnt, rtype, tcnt, ttype;
    uint64_t oaddr, raddr, caddr, taddr;
    int32_t sblob, rblob; // captured source, captured result (-1 none)
    int32_t req, pad2;
};
struct Msg {
    int8_t state; // 0 free 1 in flight 2 arrived
    int8_t sync;
    int32_t comm, src, tag, len, blob; // src is the world rank of the sender; blob lives in the sender's pool (eager) or -1
    int32_t sreq;
};
struct Grp { int8_t used, n; int8_t r[MAXPE]; };
struct Info { int32_t used, blob; };
struct Blk { uint32_t off, size; int32_t live; uint32_t pad; };

// per-PE simulated state (one snapshot component)
struct PS {
    Co co[MAXT];
    int32_t inited, finalized, level, exited;
    int32_t expect_abort, leakcheck, in_atexit, pad;
    int64_t obs[NOBS];
    uint64_t atexit_fn[MAXATEXIT];
    int32_t natexit, cfg_mt;
    uint64_t huge_len, huge_n;  // window memory larger than the arena (not part of the snapshot)
    char envs[10][200];          // environment strings "K=V" handed to the program
    Req req[MAXREQ];
    Op op[MAXOP];           // compact, in issue order
    int32_t nop, nblk;
    Msg msg[MAXMSG];        // messages addressed to this PE, compact, in send order
    int32_t nmsg, pad3;
    Grp grp[MAXGRP];
    Info info[MAXINFO];
    Blk blk[MAXBLK];        // arena blocks sorted by offset
    struct { uint64_t addr; int32_t owner, used; } mtx[MAXMUTEX];
    uint64_t dead[16];          // destroyed mutexes and condition variables
    uint32_t arena_hi, pad4;
    int64_t attr[MAXWIN][4];   // window attribute storage lives outside PE memory (read-only)
    int64_t attr_comm[2];
    int32_t tyhi, pad5;         // entries of ty[] in use lie below
    Type ty[MAXTYPE];           // only the pages below tyhi are part of a snapshot
    BlobPool blob;
};
struct Comm { int8_t used, n; int8_t r[MAXPE]; uint16_t freed; };
struct Win {
    int8_t used, comm, dynamic, pad;
    int32_t order; // bit0 rar bit1 war bit2 raw bit3 waw bit4 accumulate_ops=same_op; bit5 which_accumulate_ops given, bits 8.. the operators it lists, bit 30 compare-and-swap
    uint16_t freed, locked;
    uint64_t base[MAXPE], size[MAXPE];
    int32_t disp[MAXPE];
    uint64_t abase[MAXPE]; // memory allocated by Win_allocate
    struct { uint64_t base, size; } reg[MAXPE][MAXREG];
};
enum IK : int8_t { I_BARRIER = 1, I_BCAST, I_ALLGATHER, I_ALLGATHERV, I_ALLTOALL, I_ALLTOALLV, I_ALLREDUCE, I_REDUCE,
                   I_GATHER, I_SCATTER, I_SCAN, I_EXSCAN };
struct Inst {
    int8_t used, kind, nb, mop;
    int32_t comm, root, prim, ord;
    uint16_t arrived, done; uint8_t pad[4];
    int32_t blob[MAXPE];    // contribution, in the member's pool, indexed by comm rank
    int32_t blk[MAXPE][MAXPE]; // block lengths of contribution per destination (alltoall[v])
};
enum CK : int8_t { C_NONE = 0, C_DUP, C_SPLIT, C_SPLITTYPE, C_CREATE, C_CREATEGROUP, C_WINCREATE, C_WINALLOC, C_WINDYN, C_WINFREE };
struct Cons {
    int8_t used, kind;
    uint16_t arrived, picked; int16_t pad2;
    int32_t comm, tag, n, win, order;
    int8_t r[MAXPE];         // world ranks taking part
    int64_t a[MAXPE], b[MAXPE], c[MAXPE];
    int32_t result[MAXPE];
};
struct GS {
    Comm comm[MAXCOMM];
    Win win[MAXWIN];
    Inst inst[MAXINST];
    Cons cons[MAXCONS];
    int64_t ghost[NGHOST];
    int32_t explore, rr, pad, pad2;
};

extern PS *ps[MAXPE];
extern GS *gs;
extern int NPE;
extern int cur, curT; // running PE and thread (-1: explorer)
extern bool dirty_ps[MAXPE], dirty_gs, dirty_mem[MAXPE], dirty_stk[MAXPE][MAXT];
inline void touch(int pe, uint64_t a) { if (a >= STACK_BASE && a < STACK_BASE + (1ull << 40)) for (int t = 0; t < MAXT; t++) dirty_stk[pe][t] = true; }
extern bool g_trace;

struct Cfg {
    int npe = 2, ppn = 0, rndv = 0, yield_all = 0, tag_ub = 1 << 20, maxlevel = MPI_THREAD_MULTIPLE, split = 0, strict = 0; // strict: 1 concurrent accumulates on one location only as promised by accumulate_ops; 2 operators only as promised by which_accumulate_ops
    int lock_shared_nodes = 0, max_comm = 40;
    long page = 1024, skew = 0, dyn_asym = 1;
    std::string sched = "explore"; // eager | lazy | rr | explore
    long max_states = 2000000; double max_secs = 600; long max_steps = 200000;
    long max_mem_mb = 3500;
    std::map<std::string, std::string> env;
    std::map<std::string, long> arg;
};
extern Cfg cfg;

[[noreturn]] void viol(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void internal(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void tracef(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define TR(...) do { if (__builtin_expect(g_trace, 0)) tracef(__VA_ARGS__); } while (0)
void co_yield_();                       // switch to the explorer; descriptor already set
void sched_ready();                     // plain scheduling point
inline Co &me() { return ps[cur]->co[curT]; }
inline PS &P(int pe) { dirty_ps[pe] = true; return *ps[pe]; }
inline GS &G() { dirty_gs = true; return *gs; }
void *arena_alloc(int pe, size_t n, size_t align, int kind);
void arena_free(int pe, void *p);
size_t arena_size(int pe, void *p);
void arena_check(int pe);
bool mem_ok(int pe, uint64_t addr, size_t n);   // plausible memory of that PE
int blob_new(int pe, const void *p, int len);
char *blob_ptr(int pe, int b);
int blob_len(int pe, int b);
void blob_del(int pe, int b);

// provided by mockmpi.cpp
bool env_op_enabled(int origin, int idx);
bool env_op_skip(int origin, int idx);
void env_op_apply(int origin, int idx);
bool env_msg_enabled(int dst, int idx);
void env_msg_deliver(int dst, int idx);
bool co_enabled(int pe, int t);
void mock_init();
void mock_leakcheck(int pe);
void mock_final_check();
extern std::map<std::string, long> unsupported;
