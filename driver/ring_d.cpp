#include "ring.h"
static Reg r1("f2pm", run_ring<f2_polymod_t>);
static Reg r2("fppm", run_ring<fp_polymod_t>);
