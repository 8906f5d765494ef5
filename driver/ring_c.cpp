#include "ring.h"
static Reg r1("f2np", run_ring<f2n_poly_t>);
static Reg r2("fpnp", run_ring<fpn_poly_t>);
