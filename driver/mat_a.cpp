#include "mat.h"
static Reg r1("bits", run_mat<bit_vector_t, bit_matrix_t, bit_t>);
