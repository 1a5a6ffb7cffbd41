// Access to inline functions of the library's C headers.
#include "plasma_core_blas.h"
int mcx_lapack_const(int v) { return (unsigned char)lapack_const(v); }
