// Contracts of convolution.
#include "drive.h"
#include "conv.h"
#include "fftconv.h"
#define private public
#include "fftconv_p.h"
#undef private

extern "C" {
// z (=, += or -=) x * y, all nx+ny-1 samples.
void spec_conv(double *x, dream_idx_type nx, double *y, dream_idx_type ny, double *z, ConvMode m)
{
  if (m == ConvMode::equ)
    for (dream_idx_type k = 0; k < nx+ny-1; k++) z[k] = 0;
  for (dream_idx_type i = 0; i < nx; i++)
    for (dream_idx_type j = 0; j < ny; j++)
      if (m == ConvMode::neg) z[i+j] -= x[i]*y[j];
      else z[i+j] += x[i]*y[j];
}

// The same through the product of the zero-padded transforms.
void spec_fftconv(FFT *fft, const double *x, dream_idx_type nx, const double *y, dream_idx_type ny, double *z,
                  double *a, double *b, double *c, std::complex<double> *af, std::complex<double> *bf, std::complex<double> *cf, ConvMode m)
{
  dream_idx_type N = nx+ny-1;
  for (dream_idx_type i = 0; i < N; i++) a[i] = i < nx ? x[i] : 0.0;
  for (dream_idx_type i = 0; i < N; i++) b[i] = i < ny ? y[i] : 0.0;
  FFTVec av(N, a), bv(N, b), cv(N, c); FFTCVec afv(N, af), bfv(N, bf), cfv(N, cf);
  fft->fft(av, afv);
  fft->fft(bv, bfv);
  for (dream_idx_type k = 0; k < N; k++) cf[k] = af[k]*bf[k];
  fft->ifft(cfv, cv);
  for (dream_idx_type i = 0; i < N; i++) {
    if (m == ConvMode::sum) z[i] += c[i];
    else if (m == ConvMode::neg) z[i] -= c[i];
    else z[i] = c[i];
  }
}

// Sum over the inputs l of (column n of H[l]) * (column l of U), through the
// transforms; the documented scaling has an extra 1/N.
void spec_add_fftconv(FFT *fft, double **H, dream_idx_type L, dream_idx_type nh, dream_idx_type n, const double *U, dream_idx_type nu, double *z,
                      double *a, double *b, double *c, std::complex<double> *af, std::complex<double> *bf, std::complex<double> *cf, ConvMode m)
{
  dream_idx_type N = nh+nu-1;
  for (dream_idx_type k = 0; k < N; k++) cf[k] = 0.0;
  for (dream_idx_type l = 0; l < L; l++) {
    for (dream_idx_type i = 0; i < N; i++) a[i] = i < nh ? H[l][n*nh + i] : 0.0;
    for (dream_idx_type i = 0; i < N; i++) b[i] = i < nu ? U[l*nu + i] : 0.0;
    FFTVec av(N, a), bv(N, b); FFTCVec afv(N, af), bfv(N, bf);
    fft->fft(av, afv);
    fft->fft(bv, bfv);
    for (dream_idx_type k = 0; k < N; k++) cf[k] += af[k]*bf[k]/double(N);
  }
  FFTVec cv(N, c); FFTCVec cfv(N, cf);
  fft->ifft(cfv, cv);
  for (dream_idx_type i = 0; i < N; i++) z[i] = m == ConvMode::sum ? z[i] + c[i] : c[i];
}

// Column n of Y: column n of A with the vector B, or with column n of B.
ErrorLevel spec_fftconv_p(FFTConvP *o, double *Y, const double *A, dream_idx_type AM, dream_idx_type AN, const double *B, dream_idx_type BM, dream_idx_type BN, ConvMode m)
{
  bool vec = BM == 1 || BN == 1;
  dream_idx_type nb = vec ? BM*BN : BM, N = AM+nb-1;
  FFT fft(N, nullptr, 3);
  FFTVec a(N), b(N), c(N); FFTCVec af(N), bf(N), cf(N);
  dream_idx_type T = workers(AN);
  for (dream_idx_type t = 0; t < T; t++)
    for (dream_idx_type n = t*AN/T; n < (t+1)*AN/T; n++)
      fftconv(fft, A + n*AM, AM, vec ? B : B + n*nb, nb, Y + n*N, a.get(), b.get(), c.get(), af.get(), bf.get(), cf.get(), m);
  return ErrorLevel::none;
}
}
