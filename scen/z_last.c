/* the last variable of the static symmetric memory */
#include "scen.h"
MC_SYMM char symm_last[61] __attribute__((aligned(1))) = { 1 };
