#include "ring.h"
static Reg r1("f2pr", run_ring<f2_polyrat_t>);
static Reg r2("fppr", run_ring<fp_polyrat_t>);
static Reg r3("f2npr", run_ring<f2n_polyrat_t>);
