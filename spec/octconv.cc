// Contracts of the Octave convolution, copy and add functions.  Some reject by
// an error, some by returning nothing; in place they return nothing anyway.
#include "octbind.h"
#include "drive.h"
#include "conv.h"
#include "fftconv.h"

static inline bool mode_of(Str s, ConvMode &m)
{
  if (s == "=") m = ConvMode::equ;
  else if (s == "+=") m = ConvMode::sum;
  else if (s == "-=") m = ConvMode::neg;
  else return false;
  return true;
}

static inline void output(List *ret, const double *p, dream_idx_type m, dream_idx_type n)
{
  ret->n = 1;
  ret->v[0].p = p; ret->v[0].nd = 2; ret->v[0].m = m; ret->v[0].n = n;
}

// Whether FFTW takes the text as saved plans.
static inline bool wisdom(Str s) { return std::strcmp("fftw_wisdom", s.c_str()) != 0 && fftw_import_wisdom_from_string(s.c_str()) != 0; }

// Column n of Y: column n of A with the vector B, or with column n of B.
struct Shapes { bool vec; dream_idx_type nb, N; };
static inline bool shapes(A a, A b, Shapes &s)
{
  s.vec = b.m == 1 || b.n == 1;
  s.nb = s.vec ? b.m*b.n : b.m;
  s.N = a.m+s.nb-1;
  return (s.vec || b.n == a.n) && a.m >= 1 && s.nb >= 1;
}

// Where the result goes: a new matrix, or y.
static inline double *target(List *ret, A a, A y, const Shapes &s, bool inplace, bool clear)
{
  if (inplace) return y.m == s.N && y.n == a.n ? (double *) y.p : nullptr;
  double *Y = new double[s.N*a.n];
  if (clear) zero(Y, s.N*a.n);
  output(ret, Y, s.N, a.n);
  return Y;
}

extern "C" {
void spec_oct_conv_p(List *ret, A a, A b, A y, A mode, long nin, int nout)
{
  Shapes s;
  ret->n = 0;
  if (nin < 2 || nin > 4 || nout > (nin == 2 ? 1 : 0)) return;
  ConvMode m = ConvMode::equ;
  if (nin == 4 && !(mode.str && mode_of(*mode.s, m))) return;
  if (!shapes(a, b, s)) return;
  double *Y = target(ret, a, y, s, nin > 2, false);
  if (!Y) return;
  dream_idx_type T = workers(a.n);
  for (dream_idx_type t = 0; t < T; t++)
    for (dream_idx_type n = t*a.n/T; n < (t+1)*a.n/T; n++)
      conv((double *) a.p + n*a.m, a.m, (double *) (s.vec ? b.p : b.p + n*s.nb), s.nb, Y + n*s.N, m);
}

// The same by Fourier transforms; the fourth argument may be saved plans instead of the mode.
void spec_oct_fftconv_p(List *ret, A a, A b, A y, A p, A q, long nin, int nout)
{
  Shapes s;
  ConvMode m = ConvMode::equ;
  bool inplace = nin >= 4;
  ret->n = 0;
  need(nin >= 2 && nin <= 5 && nout <= 2 && shapes(a, b, s));
  if (nin == 3) {
    if (y.str) need(wisdom(*y.s));
    else { need(nout <= 0); inplace = true; }
  }
  if (nin == 4) { need(p.str); if (!mode_of(*p.s, m)) need(wisdom(*p.s)); }
  if (nin == 5) need(p.str && q.str && mode_of(*p.s, m) && wisdom(*q.s));
  double *Y = target(ret, a, y, s, inplace, true);
  need(Y);
  FFT fft(s.N, nullptr, nout == 2 ? 3 : 4);
  FFTVec u(s.N), v(s.N), w(s.N); FFTCVec uf(s.N), vf(s.N), wf(s.N);
  dream_idx_type T = workers(a.n);
  for (dream_idx_type t = 0; t < T; t++)
    for (dream_idx_type n = t*a.n/T; n < (t+1)*a.n/T; n++)
      fftconv(fft, a.p + n*a.m, a.m, s.vec ? b.p : b.p + n*s.nb, s.nb, Y + n*s.N, u.get(), v.get(), w.get(), uf.get(), vf.get(), wf.get(), m);
  if (nout == 2) ret->n++;            // and the plans
}

// The same in blocks of c samples, the last one padded with zeros, whose convolutions overlap.
void spec_oct_fftconv_ola(List *ret, A a, A b, A c, A y, A p, A q, long nin, int nout)
{
  Shapes s;
  ConvMode m = ConvMode::equ;
  bool inplace = nin >= 5;
  ret->n = 0;
  need(nin >= 3 && nin <= 6 && nout <= 2);
  need(shapes(a, b, s) && c.m*c.n == 1);
  dream_idx_type len = (dream_idx_type) c.p[0], L = len+s.nb-1;
  need(len >= 1 && len <= a.m);
  if (nin == 4) {
    if (y.str) need(wisdom(*y.s));
    else { need(nout <= 0); inplace = true; }
  }
  if (nin == 5) { need(p.str); if (!mode_of(*p.s, m)) need(wisdom(*p.s)); }
  if (nin == 6) need(p.str && q.str && mode_of(*p.s, m) && wisdom(*q.s));
  double *Y = target(ret, a, y, s, inplace, true);
  need(Y);
  FFT fft(L, nullptr, nout == 2 ? 3 : 4);
  double sign = m == ConvMode::neg ? -1.0 : 1.0;
  FFTVec u(L), v(L), w(L), out(L), block(L); FFTCVec uf(L), vf(L), wf(L);
  dream_idx_type T = workers(a.n);
  for (dream_idx_type t = 0; t < T; t++)
    for (dream_idx_type n = t*a.n/T; n < (t+1)*a.n/T; n++) {
      double *z = Y + n*s.N;
      if (m == ConvMode::equ) zero(z, s.N);
      for (dream_idx_type k = 0; k < a.m; k += len) {
        for (dream_idx_type i = 0; i < len; i++) block.get()[i] = k+i < a.m ? a.p[n*a.m + k+i] : 0.0;
        fftconv(fft, block.get(), len, s.vec ? b.p : b.p + n*s.nb, s.nb, out.get(), u.get(), v.get(), w.get(), uf.get(), vf.get(), wf.get(), ConvMode::equ);
        for (dream_idx_type l = 0; l < (k+L < s.N ? L : s.N-k); l++) z[k+l] += sign*out.get()[l];
      }
    }
  if (nout == 2) ret->n++;            // and the plans
}

// Column n of Y (=, or += in place): the sum over l of column n of the l:th matrix of H with column l of U.
void spec_oct_sum_fftconv(List *ret, A h, A u, A y, A p, long nin, int nout)
{
  ret->n = 0;
  if (nin < 2 || nin > 4 || nout > 2 || h.k == 1 || u.n != h.k || h.m < 1 || u.m < 1) return;
  Shapes s = {false, u.m, h.m+u.m-1};
  bool inplace = nin == 4;
  if (nin == 3) {
    if (y.str) { if (!wisdom(*y.s)) return; }
    else { if (nout > 0) return; inplace = true; }
  }
  if (nin == 4 && !(p.str && wisdom(*p.s))) return;
  double *Y = target(ret, h, y, s, inplace, true);
  if (!Y) return;
  double **H = (double **) malloc(h.k*sizeof(double *));
  for (dream_idx_type l = 0; l < h.k; l++) H[l] = (double *) h.p + h.m*h.n*l;
  FFT fft(s.N, nullptr, nout == 2 ? 3 : 4);
  FFTVec a(s.N), b(s.N), c(s.N); FFTCVec af(s.N), bf(s.N), cf(s.N);
  dream_idx_type T = workers(h.n);
  for (dream_idx_type t = 0; t < T; t++)
    for (dream_idx_type n = t*h.n/T; n < (t+1)*h.n/T; n++)
      add_fftconv(fft, H, h.k, h.m, n, (double *) u.p, u.m, Y + n*s.N, a.get(), b.get(), c.get(), af.get(), bf.get(), cf.get(), inplace ? ConvMode::sum : ConvMode::equ);
  if (nout == 2) ret->n++;            // and the plans
}

// Rows r1..r2 and columns k1..k2 of A become (or get added) those of B.
static inline void submatrix(List *ret, A a, A r, A k, A b, long nin, int nout, bool sum)
{
  ret->n = 0;
  need(nin == 4 && nout <= 0 && r.m*r.n == 2 && k.m*k.n == 2);
  double r1 = r.p[0], r2 = r.p[1], k1 = k.p[0], k2 = k.p[1];
  need((dream_idx_type) r1 >= 1 && r2 >= r1 && (dream_idx_type) r1 <= a.m && (dream_idx_type) r2 <= a.m);
  need((dream_idx_type) k1 >= 1 && k2 >= k1 && (dream_idx_type) k1 <= a.n && (dream_idx_type) k2 <= a.n);
  need(b.m >= (dream_idx_type) (r2-r1)+1 && b.n == (dream_idx_type) (k2-k1)+1);
  double *p = (double *) a.p + (dream_idx_type) (r1-1) + (dream_idx_type) (k1-1)*a.m;
  dream_idx_type T = workers(b.n), len = (dream_idx_type) (r2-r1+1);
  for (dream_idx_type t = 0; t < T; t++)
    for (dream_idx_type n = t*b.n/T; n < (t+1)*b.n/T; n++)
      for (dream_idx_type i = 0; i < len; i++)
        p[i + n*a.m] = sum ? p[i + n*a.m] + b.p[i + n*b.m] : b.p[i + n*b.m];
}
void spec_oct_copy_p(List *ret, A a, A r, A k, A b, long nin, int nout) { submatrix(ret, a, r, k, b, nin, nout, false); }
void spec_oct_add_p(List *ret, A a, A r, A k, A b, long nin, int nout) { submatrix(ret, a, r, k, b, nin, nout, true); }
}
