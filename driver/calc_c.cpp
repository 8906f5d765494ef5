#include "calc.h"
static Reg r1("calc_f2np", run_calc<f2n_poly_t, false, true>);
static Reg r2("calc_f2npm", run_calc<f2n_polymod_t, true, true>);
static Reg r3("calc_fpnp", run_calc<fpn_poly_t, false, true>);
static Reg r4("calc_fpnpm", run_calc<fpn_polymod_t, false, true>);
