#include "mat.h"
static Reg r1("t_im", run_mat<tvector<intmod_t>, tmatrix<intmod_t>, intmod_t>);
static Reg r2("t_bit", run_mat<tvector<bit_t>, tmatrix<bit_t>, bit_t>);
static Reg r3("t_q", run_mat<tvector<intrat_t>, tmatrix<intrat_t>, intrat_t>);
