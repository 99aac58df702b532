// Contract of the Python convolution function.
#include "bind.h"
#include "fftconv_p.h"

extern "C" void spec_py_fftconv_p(Mat<double> *ret, M A, M B)
{
  bool vec = B.m == 1 || B.n == 1;
  need(vec || B.n == A.n);
  dream_idx_type nb = vec ? B.m*B.n : B.m, N = A.m+nb-1;
  double *y = new double[N*A.n];
  FFTConvP o;
  o.run(y, A.p, A.m, A.n, B.p, nb, vec ? 1 : B.n);
  ret->p = y; ret->nd = 2; ret->m = N; ret->n = A.n;
}
