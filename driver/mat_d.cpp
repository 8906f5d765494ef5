#include "mat.h"
static Reg r1("t_f2p", run_mat<tvector<f2_poly_t>, tmatrix<f2_poly_t>, f2_poly_t>);
static Reg r2("t_fpp", run_mat<tvector<fp_poly_t>, tmatrix<fp_poly_t>, fp_poly_t>);
