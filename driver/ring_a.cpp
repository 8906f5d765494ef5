#include "ring.h"
static Reg r1("im", run_ring<intmod_t>);
static Reg r2("bit", run_ring<bit_t>);
static Reg r3("q", run_ring<intrat_t>);
static Reg r4("f2p", run_ring<f2_poly_t>);
