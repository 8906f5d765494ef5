#include "mat.h"
static Reg r2("t_f2npm", run_mat<tvector<f2n_polymod_t>, tmatrix<f2n_polymod_t>, f2n_polymod_t>);
