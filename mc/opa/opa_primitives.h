/* OpenPA stand-in: every atomic operation is a scheduling point of the explorer */
#ifndef OPA_PRIMITIVES_H_INCLUDED
#define OPA_PRIMITIVES_H_INCLUDED
void mc_atomic_point(void);
typedef struct { volatile int v; } OPA_int_t;
typedef struct { void *volatile v; } OPA_ptr_t;
#define OPA_INT_T_INITIALIZER(x) { (x) }
#define OPA_INLINE static inline
OPA_INLINE void OPA_store_int(OPA_int_t *p, int v) { mc_atomic_point(); p->v = v; }
OPA_INLINE int OPA_load_int(const OPA_int_t *p) { mc_atomic_point(); return p->v; }
OPA_INLINE void OPA_store_release_int(OPA_int_t *p, int v) { mc_atomic_point(); p->v = v; }
OPA_INLINE int OPA_load_acquire_int(const OPA_int_t *p) { mc_atomic_point(); return p->v; }
OPA_INLINE int OPA_cas_int(OPA_int_t *p, int o, int n) { mc_atomic_point(); int x = p->v; if (x == o) p->v = n; return x; }
OPA_INLINE void OPA_incr_int(OPA_int_t *p) { mc_atomic_point(); p->v++; }
OPA_INLINE void OPA_decr_int(OPA_int_t *p) { mc_atomic_point(); p->v--; }
OPA_INLINE void OPA_add_int(OPA_int_t *p, int k) { mc_atomic_point(); p->v += k; }
OPA_INLINE int OPA_fetch_and_incr_int(OPA_int_t *p) { mc_atomic_point(); return p->v++; }
OPA_INLINE int OPA_fetch_and_decr_int(OPA_int_t *p) { mc_atomic_point(); return p->v--; }
OPA_INLINE int OPA_fetch_and_add_int(OPA_int_t *p, int k) { mc_atomic_point(); int x = p->v; p->v += k; return x; }
OPA_INLINE int OPA_decr_and_test_int(OPA_int_t *p) { mc_atomic_point(); return --p->v == 0; }
OPA_INLINE int OPA_swap_int(OPA_int_t *p, int k) { mc_atomic_point(); int x = p->v; p->v = k; return x; }
#define OPA_read_write_barrier() do { } while (0)
#define OPA_write_barrier() do { } while (0)
#define OPA_read_barrier() do { } while (0)
#endif
