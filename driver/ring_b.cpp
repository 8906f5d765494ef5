#include "ring.h"
static Reg r1("fpp", run_ring<fp_poly_t>);
static Reg r2("qp", run_ring<q_poly_t>);
