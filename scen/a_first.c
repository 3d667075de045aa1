/* the first variable of the static symmetric memory (see mc/build.py for the link order) */
#include "scen.h"
MC_SYMM char symm_first[64] __attribute__((aligned(64))) = { 1 };
