#include "mat.h"
static Reg r1("t_f2pm", run_mat<tvector<f2_polymod_t>, tmatrix<f2_polymod_t>, f2_polymod_t>);
static Reg r2("t_fppm", run_mat<tvector<fp_polymod_t>, tmatrix<fp_polymod_t>, fp_polymod_t>);
