#include "calc.h"
static Reg r0("calc_z", run_calc<int, false, true>);
static Reg r1("calc_im", run_calc<intmod_t, true, true>);
static Reg r2("calc_bit", run_calc<bit_t, true, true>);
static Reg r3("calc_q", run_calc<intrat_t, true, true>);
