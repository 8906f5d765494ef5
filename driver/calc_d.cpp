#include "calc.h"
static Reg r1("calc_f2pr", run_calc<f2_polyrat_t, false, true>);
static Reg r2("calc_fppr", run_calc<fp_polyrat_t, false, true>);
static Reg r3("calc_f2npr", run_calc<f2n_polyrat_t, false, true>);
