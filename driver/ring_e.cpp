#include "ring.h"
static Reg r1("f2npm", run_ring<f2n_polymod_t>);
static Reg r2("fpnpm", run_ring<fpn_polymod_t>);
