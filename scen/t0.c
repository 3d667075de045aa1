#include "scen.h"
MC_SYMM static long x, y, buf[8];
/* put; quiet; ghost; other PE checks */
MC_SCEN(hello)
{
    shmem_init();
    int me = shmem_my_pe(), n = shmem_n_pes();
    mc_begin();
    shmem_long_p(&x, 5 + me, (me + 1) % n);
    shmem_quiet();
    long v = *(long *) mc_remote(&x, (me + 1) % n);
    mc_assert(v == 5 + me, "quiet returned but value is %ld", v);
    mc_obs(0, mc_read(&x));
    mc_end();
    shmem_finalize();
}
