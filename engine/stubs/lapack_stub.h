#ifndef LAPACK_STUB_H
#define LAPACK_STUB_H
// Harness-visible record of the linear systems handed to LAPACK with a symbolic matrix.
#include <vector>
struct LapackCall {
  int n, nrhs;
  std::vector<double> A;      // dense n x n, row major: A[i*n+j] multiplies x_j in equation i
  std::vector<double> b;      // n x nrhs, column major
  std::vector<double> x;      // the (fresh) solution handed back
};
extern std::vector<LapackCall> lapack_calls;
// 0: eliminate symbolically (tiny systems), 1: contract (fresh solution, A x = b recorded not asserted),
// 2: unknown function of the system
extern int lapack_mode;
extern double lapack_xmag; // bound of fresh solution components
#endif
