/* Scenario API of the model checker (also implemented by mcreal.c on top of a real MPI). */
#ifndef MC_H
#define MC_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
int mc_pe(void);
int mc_npes(void);
/* integer argument of the scenario instance */
long mc_arg(const char *name, long dflt);
/* nondeterministic choice 0..n-1 of one PE / the same value on all PEs (all PEs must call) */
int mc_choose(int n);
int mc_choose_all(int n);
/* scheduling point: other PEs and the environment may act here */
void mc_point(void);
/* environment variable of this PE (before initialisation) */
void mc_setenv(const char *k, const char *v);
/* racy read of memory that others may write (a scheduling point followed by the read) */
#define mc_read(p) (mc_point(), *(volatile __typeof__(*(p)) *)(p))
void mc_fail(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
#define mc_assert(c, ...) do { if (!(c)) mc_fail(__VA_ARGS__); } while (0)
/* all interleavings are explored between begin and end (both are rendezvous of all PEs) */
void mc_begin(void);
void mc_end(void);
/* ghost variables, shared by all PEs, not part of the program under test */
int64_t mc_ghost(int i);
void mc_ghost_set(int i, int64_t v);
int64_t mc_ghost_add(int i, int64_t v); /* returns new value */
/* block until ghost i >= v */
void mc_await(int i, int64_t v);
/* outcome of this PE (part of the recorded outcome of the execution) */
void mc_obs(int i, int64_t v);
int64_t mc_get_obs(int pe, int i);
/* address of the copy of symmetric object p on another PE (NULL if p is not symmetric) */
void *mc_remote(const void *p, int pe);
/* the i-th remotely accessible segment of this PE (0: no more) */
int mc_segment(int i, void **lo, size_t *n);
/* pending (not yet applied) RMA operations of pe / undelivered messages sent by pe */
int mc_pending_rma(int pe);
int mc_pending_msgs(int pe);
/* after the program ended, require that no MPI object is left */
void mc_leakcheck(void);
/* scenario asks for a negative instance: execution ended (e.g. global_exit) */
void mc_expect_abort(void);
/* running under the model (1) or on a real MPI (0) */
int mc_model(void);
/* run fn(arg) as an additional thread of this PE */
int mc_spawn(void *(*fn)(void *), void *arg);
void mc_join(int t);
/* the number of live objects: 0 requests, 1 derived types, 2 comms, 3 windows, 4 groups, 5 infos, 6 heap blocks (malloc) */
int mc_live(int what);

typedef struct {
    const char *name;
    void (*fn)(void);
} mc_scen_t;
#define MC_SYMM __attribute__((section("symmdata")))
#define MC_SCEN(n) \
    static void n(void); \
    __attribute__((used, section("mcscen"))) static mc_scen_t const *const n##_p = &(mc_scen_t const){ #n, n }; \
    static void n(void)
#ifdef __cplusplus
}
#endif
#endif
