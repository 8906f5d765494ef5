#include "calc.h"
static Reg r1("calc_f2p", run_calc<f2_poly_t, false, true>);
static Reg r2("calc_f2pm", run_calc<f2_polymod_t, true, true>);
static Reg r3("calc_fpp", run_calc<fp_poly_t, false, true>);
static Reg r4("calc_fppm", run_calc<fp_polymod_t, true, true>);
static Reg r5("calc_qp", run_calc<q_poly_t, false, false>);
